#!/bin/sh
# builds the C++ front end (needs only what is in /verif and the installed clang libraries)
set -e
cd "$(dirname "$0")"
if [ -f cx/Makefile ]; then make -s -C cx; fi
exit 0
