#!/bin/bash
# builds the extractor and warms the harness build; every check builds again what it needs
export HD_BUILD_CLI=1
cd "$(dirname "$0")" && (bash harness/build.sh || bash harness/build.sh empty || true)
