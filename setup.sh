#!/bin/bash
# builds the fact extractor and the dependencies' metadata
set -e
here=$(cd "$(dirname "$0")" && pwd)
bash "$here/sa/extract.sh" "$here/build/facts.setup"
find "$here/build/facts.setup" -type f -name '*.json' -delete
