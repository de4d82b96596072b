#!/bin/bash
# Nothing to build: the specifications are interpreted by TLC, the code under
# test is built by each check. Verify that the tools are present.
set -e
test -x /opt/venv/bin/python
test -r /opt/veriftools/tla/tla2tools.jar
test -r /opt/veriftools/tla/CommunityModules-deps.jar
java -version 2>&1 | head -1
