#!/bin/bash
# developer helper: v.sh PARAM [engine args] -- compact list of violations (MX of them)
bash /verif/tools/s.sh "$@" | grep -vE "^  (fork|cover|assert)|^{'unk|^{'stop" | sed 's/< vh.*//; s/vh::common.*//' | cut -c1-${W:-420}
