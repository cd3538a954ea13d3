#!/bin/bash
# mkseed.sh <id> <property> <pkgdir-relative-to-repo> : make /verif/seeded/<id> from
#  the diff currently in /tmp/seed (worktree copy of /repo) and /tmp/demo_test.go
# then confirm it: builds, passes stable tests, demo ok on clean tree, fails with patch.
set -e
id=$1; prop=$2; pkg=$3
S=/verif/seeded/$id; mkdir -p $S
git -C /tmp/seed diff > $S/patch.diff
cp /tmp/demo_test.go $S/demo_test.go
cat > $S/demo.sh <<D
#!/bin/bash
# exit 0 when the property holds, nonzero when the planted change breaks it
H=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d); trap 'rm -rf "\$T"' EXIT
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOWORK=off GOPATH=/root/go GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOSUMDB=off
R=\$(pwd)
cp "\$R/go.mod" "\$T/x.mod"; cp /opt/vp/owcrypt.sum "\$T/x.sum"
export GOFLAGS="-mod=mod -modfile=\$T/x.mod"
echo "{\"Replace\": {\"\$R/$pkg/zz_demo_test.go\": \"\$H/demo_test.go\"}}" > "\$T/o.json"
go test -overlay "\$T/o.json" -vet=off -count=1 -timeout 250s -run 'TestZZDemo' "./$pkg"
D
chmod +x $S/demo.sh
[ -f /tmp/meta.json ] && cp /tmp/meta.json $S/meta.json
echo "--- demo on clean"; (cd /repo && bash $S/demo.sh) || { echo "DEMO FAILS ON CLEAN"; exit 1; }
git -C /repo apply $S/patch.diff
trap 'git -C /repo checkout -- .' EXIT
bash /opt/vp/build.sh || { echo NOBUILD; exit 1; }
bash /opt/vp/test.sh /tmp/o.json
echo "--- demo on patched"; (cd /repo && bash $S/demo.sh) > /tmp/demo.out 2>&1 && { echo "DEMO PASSES ON PATCHED"; tail -5 /tmp/demo.out; exit 1; }
tail -4 /tmp/demo.out
echo "--- check"; cd /verif; bash run.sh $prop | tail -8
