// Code generated by shimgen from context; DO NOT EDIT.

package context

import p "context"

var Background = p.Background

type CancelCauseFunc = p.CancelCauseFunc
type CancelFunc = p.CancelFunc

var Canceled = p.Canceled

type Context = p.Context

var DeadlineExceeded = p.DeadlineExceeded
var TODO = p.TODO
var WithValue = p.WithValue
