#!/bin/bash
exec bash "$(dirname "${BASH_SOURCE[0]}")/run.sh" --cmd replay "$(realpath "$1")"
