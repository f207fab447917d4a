// Code generated by vtool alias. DO NOT EDIT.

package context

import real "context"

var AfterFunc = real.AfterFunc
var WithDeadlineCause = real.WithDeadlineCause
var WithTimeoutCause = real.WithTimeoutCause
