// Code generated by tools/genpass; DO NOT EDIT.

package vcontext

import "context"

var Background = context.Background
var Canceled = context.Canceled
var DeadlineExceeded = context.DeadlineExceeded
var TODO = context.TODO
var WithValue = context.WithValue
var WithoutCancel = context.WithoutCancel
