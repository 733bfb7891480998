#!/bin/bash
# tools/in_copy.sh SLOT COMMAND...: run COMMAND with a scratch copy of /repo shown as /repo.
S=/tmp/copy$1; shift
[ -d $S ] || cp -a /repo $S
export MPCV_BUILD=$S.build MPCV_SLOT=$(basename $S)
exec unshare -Urm bash -c "mount --bind $S /repo && cd /verif && exec \"\$@\"" - "$@"
