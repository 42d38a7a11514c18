#!/bin/bash
# rehint.sh VCG PROP...: run the proofs of the properties and record hints
for p in "${@:2}"; do
  "$1" -prop $p -repo ${VERIF_REPO:-/repo} -specs /verif/contracts -timeout 20 -out /tmp/rehint.$p.json && python3 /verif/tools/hints.py /tmp/rehint.$p.json
done
