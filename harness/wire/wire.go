// Package wire is an independent reference implementation of tcpx's documented
// block layout: [length][messageID][headerLength][bodyLength][header][body],
// four big-endian 32-bit words and two byte strings, where length counts every
// byte after the length word itself.
package wire

import (
	"errors"
	"io"
)

type Frame struct {
	ID     int32
	Header []byte
	Body   []byte
	Raw    []byte
}

func put(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func get(b []byte) uint32 {
	return uint32(b[0])<<24 | uint32(b[1])<<16 | uint32(b[2])<<8 | uint32(b[3])
}

// Build lays out one block.
func Build(id int32, header, body []byte) []byte {
	b := make([]byte, 0, 16+len(header)+len(body))
	b = put(b, uint32(12+len(header)+len(body)))
	b = put(b, uint32(id))
	b = put(b, uint32(len(header)))
	b = put(b, uint32(len(body)))
	b = append(b, header...)
	return append(b, body...)
}

// BuildRaw lays out the four words as given, followed by rest.
func BuildRaw(length, id, hlen, blen uint32, rest []byte) []byte {
	b := put(nil, length)
	b = put(b, id)
	b = put(b, hlen)
	b = put(b, blen)
	return append(b, rest...)
}

// Parse decodes exactly one consistent block.
func Parse(b []byte) (Frame, error) {
	if len(b) < 16 {
		return Frame{}, errors.New("shorter than 16 bytes")
	}
	l, h, n := uint64(get(b)), uint64(get(b[8:])), uint64(get(b[12:]))
	if l+4 != uint64(len(b)) {
		return Frame{}, errors.New("length word does not cover the block")
	}
	if 16+h+n != uint64(len(b)) {
		return Frame{}, errors.New("header and body lengths do not add up")
	}
	return Frame{ID: int32(get(b[4:])), Header: b[16 : 16+h], Body: b[16+h : 16+h+n], Raw: b}, nil
}

// Split cuts a stream into consistent blocks.
func Split(stream []byte) ([]Frame, error) {
	var fs []Frame
	for len(stream) > 0 {
		if len(stream) < 4 {
			return fs, errors.New("trailing bytes")
		}
		l := uint64(get(stream)) + 4
		if l > uint64(len(stream)) {
			return fs, errors.New("incomplete block")
		}
		f, err := Parse(stream[:l])
		if err != nil {
			return fs, err
		}
		fs = append(fs, f)
		stream = stream[l:]
	}
	return fs, nil
}

// ReadBlock reads one whole block.
func ReadBlock(r io.Reader) ([]byte, error) {
	b := make([]byte, 4)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	b = append(b, make([]byte, get(b))...)
	_, err := io.ReadFull(r, b[4:])
	return b, err
}
