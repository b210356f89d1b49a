#!/bin/bash
RUSTC_BOOTSTRAP=1 exec "$@"
