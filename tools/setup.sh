#!/bin/bash
# Nothing is kept between runs: every check builds the simulator from /repo's working tree. Only check the tools are here.
command -v python3 >/dev/null && { command -v g++-10 >/dev/null || command -v g++ >/dev/null; }
