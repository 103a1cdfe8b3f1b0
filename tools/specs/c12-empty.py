import os
g={}
exec(open('/verif/tools/specs/c12-txn.py').read(),g)
DEMO=g['DEMO']
id='c12-empty'; prop='C12'
pkg='providers/etcd'
needs='a key set to the empty string while it is watched'
breaks='an event that sets a key to the empty string is ignored, the store keeps the old value'
edits=[('providers/etcd/change.go','''	if s.idx == 0 {
''','''	if s.idx == 0 && (len(s.ev.Kv.Value) > 0 || s.lastOp == store.OpRemove) {
''')]
demo=DEMO%('{put("app/x", "", 2, 5)}','""','"1"')
