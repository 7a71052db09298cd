package main

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"os"
	"syscall"
)

var errInjected = errors.New("injected I/O fault")

// ioErr is one of the errors sources and destinations report. None of them is
// the end of the input.
func ioErr(r *rand.Rand) error {
	return []error{errInjected, errInjected, io.ErrUnexpectedEOF, os.ErrDeadlineExceeded, errors.New("EOF"), fmt.Errorf("wrapped: %w", io.EOF), io.ErrNoProgress, io.ErrShortBuffer,
		io.ErrShortWrite, syscall.EIO, &fs.PathError{Op: "read", Path: "/dev/pts/0", Err: syscall.EIO}, syscall.EINTR, syscall.EAGAIN, &fs.PathError{Op: "write", Path: "x", Err: syscall.EINTR},
		syscall.EPIPE, syscall.ENOSPC, syscall.EDQUOT, syscall.ECONNRESET, os.ErrClosed, net.ErrClosed, context.Canceled, os.ErrNotExist}[r.Intn(22)]
}

// Components of an encrypted file, in order.
const (
	cHdr = iota
	cBlk
	cTrl
	cEnd
)

// FSink is a destination that follows the file format of what it accepts and
// fails at a chosen component.
type FSink struct {
	Fault  string // none, hdr, blk1, blk2, trl, cls
	Delta  int    // bytes of that component accepted before the fault
	Once   bool   // transient: only the first write fails
	Late   bool   // the write that fails takes all of its bytes all the same
	Err    error  // what it reports; nil: errInjected
	Short  *rand.Rand
	Fired  bool // a fault was reported since last cleared
	Ever   bool
	Data   []byte // everything accepted
	Closes int

	comp   int
	inComp int // bytes of the current component so far
	need   int // length of the current component, if known
	blk    int
	blocks [][]byte // complete blocks (length word, ciphertext, tag)
	start  int      // offset of the current component in Data
	Reject [][]byte // payloads that were refused
	fails  int
	noHdr  bool // the write of the header failed, if only in the end
}

// err is the error a failing call reports. Who tries again for ever gets
// another one in the end.
func (s *FSink) err() error {
	if s.fails++; s.Err == nil || s.fails > 10000 {
		return errInjected
	}
	return s.Err
}

func (s *FSink) faultHere() bool {
	if s.Ever && s.Once {
		return false
	}
	if s.Ever {
		return true
	}
	switch s.Fault {
	case "hdr":
		return s.comp == cHdr && s.inComp >= s.Delta
	case "blk1":
		return s.comp == cBlk && s.blk == 0 && s.inComp >= s.Delta
	case "blk2":
		return s.comp == cBlk && s.blk >= 1 && s.inComp >= s.Delta
	case "trl":
		return s.comp == cTrl && s.inComp >= s.Delta
	}
	return false
}

// step accounts for one accepted byte.
func (s *FSink) step(c byte) {
	s.Data = append(s.Data, c)
	s.inComp++
	cur := s.Data[s.start:]
	next := func(comp int) {
		s.comp, s.inComp, s.start = comp, 0, len(s.Data)
	}
	switch s.comp {
	case cHdr:
		if s.inComp >= 12 {
			if n := 12 + int(binary.BigEndian.Uint32(cur[8:12])) + 32; s.inComp >= n {
				next(cBlk)
			}
		}
	case cBlk:
		if s.inComp >= 4 {
			w := binary.BigEndian.Uint32(cur)
			if n := 4 + int(w&(1<<31-1)) + 16; s.inComp >= n {
				s.blocks = append(s.blocks, cur[:n])
				s.blk++
				if w>>31 == 1 {
					next(cTrl)
				} else {
					next(cBlk)
				}
			}
		}
	case cTrl:
		if s.inComp >= 64 {
			next(cEnd)
		}
	}
}

func (s *FSink) Write(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	lim := len(b)
	if s.Short != nil && s.Short.Intn(2) == 0 {
		lim = 1 + s.Short.Intn(lim)
	}
	for i := 0; i < lim; i++ {
		if s.faultHere() {
			s.Fired, s.Ever = true, true
			if s.Late {
				s.noHdr = s.comp == cHdr
				for _, c := range b[i:] {
					s.step(c)
				}
				return len(b), s.err()
			}
			s.Reject = append(s.Reject, append([]byte(nil), b[i:]...))
			return i, s.err()
		}
		s.step(b[i])
	}
	return lim, nil
}

func (s *FSink) Close() error {
	s.Closes++
	if s.Fault == "cls" && !(s.Ever && s.Once) {
		s.Fired, s.Ever = true, true
		return s.err()
	}
	return nil
}

func (s *FSink) HdrDone() bool  { return s.comp > cHdr && !s.noHdr }
func (s *FSink) Complete() bool { return s.comp == cEnd }

// FSource is a source with a fault plan.
type FSource struct {
	Data  []byte
	At    int // offset at which Err is returned; < 0: never
	Err   error
	Cut   bool // ends (io.EOF) at At instead
	R     *rand.Rand
	Style int // 0 plain, 1 one byte, 2 random short, 3 data together with EOF/error, 4 random with empty reads
	Fired bool
	off   int
}

func (s *FSource) Read(b []byte) (int, error) {
	end := len(s.Data)
	err := errEOF
	if s.At >= 0 && s.At <= end {
		end = s.At
		if !s.Cut {
			err = s.Err
		}
	}
	if s.off >= end {
		s.Fired = s.Fired || s.At >= 0
		return 0, err
	}
	if len(b) == 0 {
		return 0, nil
	}
	n := min(len(b), end-s.off)
	switch s.Style {
	case 1:
		n = 1
	case 2, 4:
		if s.Style == 4 && s.R.Intn(4) == 0 {
			return 0, nil
		}
		n = 1 + s.R.Intn(n)
	}
	copy(b, s.Data[s.off:s.off+n])
	s.off += n
	if s.Style == 3 && s.off == end {
		s.Fired = s.Fired || s.At >= 0
		return n, err
	}
	return n, nil
}
