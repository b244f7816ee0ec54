#!/bin/bash
# run.sh <property-id>            run the check of one property (tier/seed from the environment)
# run.sh replay <file.json>       re-run one saved counterexample without Hypothesis
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 TZ=UTC LC_ALL=C.UTF-8
export PYTHONPATH="${ICS_REPO:-/repo}/src:$here"
exec /opt/venv/bin/python -m harness "$@"
