package app

import "fmt"

// The harnesses drive undo and redo, which no interface offers. found says whether the App has them at all.

func VfUndo(a App) (err error, found bool) {
	if h, ok := a.(interface{ undo() (error, int) }); ok {
		err, _ = h.undo()
		return err, true
	}
	return nil, false
}

func VfRedo(a App) (err error, found bool) {
	if h, ok := a.(interface{ redo() (error, int) }); ok {
		err, _ = h.redo()
		return err, true
	}
	return nil, false
}

func VfExec(a App, c Command) (s fmt.Stringer, err error, found bool) {
	if h, ok := a.(interface {
		exec(Command) (fmt.Stringer, error)
	}); ok {
		s, err = h.exec(c)
		return s, err, true
	}
	return nil, nil, false
}
