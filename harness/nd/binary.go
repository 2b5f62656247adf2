package nd

import (
	"encoding/binary"
	"errors"
	"io"
)

// BinaryWrite, BinaryRead and BinarySize replace encoding/binary.Write, Read and
// Size under the engine: the same byte layout for fixed-size data, without reflection.
func BinaryWrite(w io.Writer, order binary.ByteOrder, data any) error {
	_, err := w.Write(encodeFixed(isBig(order), data))
	return err
}

func BinaryRead(r io.Reader, order binary.ByteOrder, data any) error {
	n := decodeFixed(true, data, nil)
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return err
	}
	if n > 0 {
		decodeFixed(isBig(order), data, b)
	}
	return nil
}

func BinarySize(data any) int { return len(encodeFixed(true, data)) }

func isBig(order binary.ByteOrder) bool { return order.Uint16([]byte{0, 1}) == 1 }

var errNative = errors.New("only under the engine")

func encodeFixed(big bool, data any) []byte          { panic(errNative) }
func decodeFixed(big bool, data any, buf []byte) int { panic(errNative) }
