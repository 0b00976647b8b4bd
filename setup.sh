#!/bin/bash
exec bash /verif/build.sh
