# sourced: makes $SBX/repo and $SBX/verif, scratch copies of /repo's HEAD and /verif's working tree, so that trials never patch /repo
SBX=$(mktemp -d /tmp/sbx.XXXXXX); trap 'rm -rf -- "$SBX"' EXIT
git clone -q /repo "$SBX/repo" && mkdir "$SBX/verif" && tar -C /verif --exclude=.git --exclude=evidence --exclude=seeded -cf - . | tar -C "$SBX/verif" -xf - && mkdir -p "$SBX/verif/evidence"
sed -i "s#=> /repo#=> $SBX/repo#" "$SBX/verif/harness/go.mod"
