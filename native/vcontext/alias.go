package context

import "context"

var AfterFunc = context.AfterFunc
var Background = context.Background

type CancelCauseFunc = context.CancelCauseFunc
type CancelFunc = context.CancelFunc

var Canceled = context.Canceled
var Cause = context.Cause

type Context = context.Context

var DeadlineExceeded = context.DeadlineExceeded
var TODO = context.TODO
var WithCancel = context.WithCancel
var WithCancelCause = context.WithCancelCause
var WithValue = context.WithValue
var WithoutCancel = context.WithoutCancel
