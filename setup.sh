#!/bin/bash
# nothing to prepare: every check compiles what it needs from the current tree
command -v g++ >/dev/null && [ -f /usr/include/nlopt.hpp ] && echo ready
