package simrt

// Primitives for the shims.

// SyncPoint is a preemption point.
func SyncPoint() {
	if cur != nil {
		cur.syncPoint()
	}
}

// CurTask is the running task, nil outside of a run.
func CurTask() *Task {
	if cur == nil {
		return nil
	}
	return cur.cur
}

// Block parks the current task.
func Block(what string) { cur.block(what) }

// Ready makes a task runnable.
func Ready(t *Task) {
	if cur != nil {
		cur.ready(t)
	}
}

// GoNamed starts a background task of a shim (it counts as one of the code
// under test).
func GoNamed(name string, fn func()) { cur.spawn(name, true, fn) }

// Tasks of the run.
func Tasks() []*Task { return cur.tasks }
