package exec

import (
	dstrt "archive"
	"errors"
	"os"
)

// dstRun stands for starting a helper command and waiting for it. No real command is ever started.
func (c *Cmd) dstRun() error {
	if c.Err != nil && !errors.Is(c.Err, ErrNotFound) {
		return c.Err
	}
	if dstrt.ExecHook == nil || dstrt.Proc() == 0 {
		return &Error{Name: c.Path, Err: ErrNotFound}
	}
	if c.ctx != nil {
		if err := c.ctx.Err(); err != nil {
			return err
		}
	}
	var deadline int64
	if c.ctx != nil {
		if d, ok := c.ctx.Deadline(); ok {
			deadline = d.UnixNano()
		}
	}
	out, stderr, code, err := dstrt.ExecHook(c.Path, c.Args, deadline)
	if c.Stdout != nil && len(out) > 0 {
		c.Stdout.Write(out)
	}
	if c.Stderr != nil && len(stderr) > 0 {
		c.Stderr.Write(stderr)
	}
	if err != nil {
		return err
	}
	c.ProcessState = os.DSTProcessState(code)
	if code != 0 {
		return &ExitError{ProcessState: os.DSTProcessState(code), Stderr: stderr}
	}
	return nil
}

var dstStarted = map[*Cmd]error{}

func (c *Cmd) dstStart() error {
	err := c.dstRun()
	var ee *ExitError
	if err != nil && !errors.As(err, &ee) {
		return err
	}
	dstrt.Quiet(true)
	dstStarted[c] = err
	dstrt.Quiet(false)
	return nil
}

func (c *Cmd) dstWait() error {
	dstrt.Quiet(true)
	defer dstrt.Quiet(false)
	err, ok := dstStarted[c]
	if !ok {
		return errors.New("exec: not started")
	}
	delete(dstStarted, c)
	return err
}
