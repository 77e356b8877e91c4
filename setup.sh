#!/bin/bash
cd "$(dirname "$0")" && bash sim/build.sh && echo ready
