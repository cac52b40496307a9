package converters

import "errors"

var errR = errors.New("out of range")

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func ToUint32[T integer](v T) (uint32, error) { if v < 0 || uint64(v) > 1<<32-1 { return 0, errR }; return uint32(v), nil }
func ToUint[T integer](v T) (uint, error) { if v < 0 { return 0, errR }; return uint(v), nil }
func ToInt[T integer](v T) (int, error) { if v > 0 && uint64(v) > 1<<63-1 { return 0, errR }; return int(v), nil }
func ToInt64[T integer](v T) (int64, error) { if v > 0 && uint64(v) > 1<<63-1 { return 0, errR }; return int64(v), nil }
