// Code generated by vtool alias. DO NOT EDIT.

package rand

import real "math/rand"

type Source = real.Source
type Source64 = real.Source64
type Zipf = real.Zipf

var NewSource = real.NewSource
