#!/bin/sh
# warnings of the code under test are none of our business
exec "$@" -Wno-error
