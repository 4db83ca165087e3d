package vk

import "syscall"

func procAttr() *syscall.SysProcAttr { return nil }
