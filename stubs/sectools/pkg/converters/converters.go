// Package converters is a stand-in for github.com/hyp3rd/sectools/pkg/converters,
// which could not be fetched in this sandbox. It implements only the checked
// integer conversions hypercache uses: the value when it is representable in the
// target type, an error otherwise.
package converters

import (
	"fmt"
	"math"
)

// Integer is any built-in integer kind.
type Integer interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

// ToUint32 converts v to uint32 or reports that it does not fit.
func ToUint32[T Integer](v T) (uint32, error) {
	if v < 0 || uint64(v) > math.MaxUint32 {
		return 0, fmt.Errorf("converters: %v does not fit uint32", v)
	}

	return uint32(v), nil
}

// ToUint64 converts v to uint64 or reports that it does not fit.
func ToUint64[T Integer](v T) (uint64, error) {
	if v < 0 {
		return 0, fmt.Errorf("converters: %v does not fit uint64", v)
	}

	return uint64(v), nil
}

// ToUint converts v to uint or reports that it does not fit.
func ToUint[T Integer](v T) (uint, error) {
	if v < 0 {
		return 0, fmt.Errorf("converters: %v does not fit uint", v)
	}

	return uint(v), nil
}

// ToInt converts v to int or reports that it does not fit.
func ToInt[T Integer](v T) (int, error) {
	if v > 0 && uint64(v) > math.MaxInt {
		return 0, fmt.Errorf("converters: %v does not fit int", v)
	}

	return int(v), nil
}

// ToInt64 converts v to int64 or reports that it does not fit.
func ToInt64[T Integer](v T) (int64, error) {
	if v > 0 && uint64(v) > math.MaxInt64 {
		return 0, fmt.Errorf("converters: %v does not fit int64", v)
	}

	return int64(v), nil
}
