package main

// Operations besides resolutions.

func (w *World) executeMore(r *opResult) {
	switch r.op.Kind {
	case "collect":
		w.execCollect(r)
	case "tmverify":
		w.execMarks(r)
	case "own", "publish":
		w.execOwn(r)
	case "issue":
		w.execIssue(r)
	case "recheck":
		w.execRecheck(r)
	case "authurl", "code", "opmeta":
		w.execRP(r)
	}
}

func (w *World) judgeMore(r *opResult) {
	switch r.op.Kind {
	case "meta", "payload", "possible":
		w.judgeRemoteResolve(r)
	case "collect":
		if r.op.A == "smart" || r.op.A == "remote" {
			w.judgeRemoteCollect(r)
		} else {
			w.judgeCollect(r)
		}
	case "tmverify":
		w.judgeTMVerify(r)
	case "own", "publish":
		w.judgeOwn(r)
	case "issue":
		w.judgeIssue(r)
	case "authurl", "code", "opmeta":
		w.judgeRP(r)
	}
}

func (w *World) snapshotMore(r *opResult) any { return nil }

// finalChecks look at the whole history of the run.
func (w *World) finalChecks() {
	w.checkKept()
	w.checkRefreshes()
	w.checkOwnHistory()
}
