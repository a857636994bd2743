//go:build c32 || all

package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"syscall"
	"time"
	"unsafe"
)

// terminal is a REPL process on a pseudo-terminal.
type terminal struct {
	cmd  *exec.Cmd
	pty  *os.File
	out  chan []byte // chunks of output; closed at the end
	got  bytes.Buffer
	done chan error
}

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	if _, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg)); e != 0 {
		return e
	}
	return nil
}

// openPTY opens a pseudo-terminal of 2000 columns.
func openPTY() (m, s *os.File, err error) {
	fd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC|syscall.O_NONBLOCK, 0)
	if err != nil {
		return nil, nil, err
	}
	m = os.NewFile(uintptr(fd), "ptmx")
	var n, unlock uint32
	if err = ioctl(uintptr(fd), syscall.TIOCGPTN, unsafe.Pointer(&n)); err == nil {
		err = ioctl(uintptr(fd), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock))
	}
	size := [4]uint16{50, 2000, 0, 0}
	if err == nil {
		err = ioctl(uintptr(fd), syscall.TIOCSWINSZ, unsafe.Pointer(&size))
	}
	if err == nil {
		s, err = os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	}
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// startTerminal starts the REPL on a terminal in a directory.
func startTerminal(bin, dir string, env []string) *terminal {
	signal.Ignore(syscall.SIGTSTP) // a REPL that suspends itself would suspend its parent too
	m, s, err := openPTY()
	if err != nil {
		panic("harness: no pseudo-terminal: " + err.Error())
	}
	t := &terminal{pty: m, out: make(chan []byte, 1000), done: make(chan error, 1)}
	t.cmd = exec.Command(bin)
	t.cmd.Dir = dir
	t.cmd.Env = []string{"HOME=" + dir, "TERM=xterm", "PATH=/usr/bin:/bin", "GOMEMLIMIT=1GiB", "GOMAXPROCS=2"}
	t.cmd.Env = append(t.cmd.Env, env...)
	t.cmd.Stdin, t.cmd.Stdout, t.cmd.Stderr = s, s, s
	t.cmd.SysProcAttr = &syscall.SysProcAttr{Setsid: true, Setctty: true, Ctty: 0}
	if err := t.cmd.Start(); err != nil {
		panic("harness: " + err.Error())
	}
	s.Close()
	go func() {
		defer close(t.out)
		for {
			b := make([]byte, 4096)
			n, err := m.Read(b)
			if n > 0 {
				t.out <- b[:n]
			}
			if err != nil {
				return
			}
		}
	}()
	go func() { t.done <- t.cmd.Wait() }()
	return t
}

// send types keys.
func (t *terminal) send(keys string) error {
	t.pty.SetWriteDeadline(time.Now().Add(60 * time.Second))
	_, err := io.WriteString(t.pty, keys)
	return err
}

var errNoPrompt = errors.New("no further prompt")

// wait reads until the parts have come, one after the other.
func (t *terminal) wait(d time.Duration, parts ...string) error {
	end := time.After(d)
	from := 0
	for {
		for len(parts) > 0 {
			i := bytes.Index(t.got.Bytes()[from:], []byte(parts[0]))
			if i < 0 {
				from = max(from, t.got.Len()-len(parts[0])+1)
				break
			}
			from += i + len(parts[0])
			parts = parts[1:]
		}
		if len(parts) == 0 {
			return nil
		}
		select {
		case b, ok := <-t.out:
			if !ok {
				return io.EOF
			}
			t.got.Write(b)
		case <-end:
			return errNoPrompt
		}
	}
}

// finish waits for the end of the process.
func (t *terminal) finish(d time.Duration) error {
	end := time.After(d)
	for {
		select {
		case b, ok := <-t.out:
			if ok {
				t.got.Write(b)
				continue
			}
			select {
			case err := <-t.done:
				return err
			case <-end:
			}
			return errors.New("the process does not end")
		case err := <-t.done:
			for b := range t.out {
				t.got.Write(b)
			}
			return err
		case <-end:
			return errors.New("the process does not end")
		}
	}
}

// kill ends the process.
func (t *terminal) kill() {
	t.cmd.Process.Kill()
	t.pty.Close()
	go func() {
		for range t.out {
		}
	}()
}
