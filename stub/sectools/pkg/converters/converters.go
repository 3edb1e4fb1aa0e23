// Package converters is an offline stand-in for
// github.com/hyp3rd/sectools/pkg/converters (v1.2.6), which cannot be fetched
// in this sandbox. It provides the checked integer conversions hypercache uses.
package converters

import "errors"

// ErrOverflow is returned when the value does not fit the target type.
var ErrOverflow = errors.New("integer conversion out of range")

type integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64
}

func conv[T, F integer](v F) (T, error) {
	out := T(v)
	if F(out) != v || (v < 0) != (out < 0) {
		return 0, ErrOverflow
	}

	return out, nil
}

// ToInt converts to int.
func ToInt[F integer](v F) (int, error) { return conv[int](v) }

// ToInt64 converts to int64.
func ToInt64[F integer](v F) (int64, error) { return conv[int64](v) }

// ToInt32 converts to int32.
func ToInt32[F integer](v F) (int32, error) { return conv[int32](v) }

// ToUint converts to uint.
func ToUint[F integer](v F) (uint, error) { return conv[uint](v) }

// ToUint32 converts to uint32.
func ToUint32[F integer](v F) (uint32, error) { return conv[uint32](v) }

// ToUint64 converts to uint64.
func ToUint64[F integer](v F) (uint64, error) { return conv[uint64](v) }
