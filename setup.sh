#!/bin/bash
# Builds everything once; each check rebuilds what changed.
cd /verif && exec bash run.sh setup build
