#ifndef PNUT_FAKE_H
#define PNUT_FAKE_H
#define NULL ((void*)0)
#define EOF (-1)
#define O_RDONLY 0
#define O_WRONLY 1
#define O_RDWR 2
#define O_CREAT 64
#define O_TRUNC 512
typedef struct _FILE FILE;
typedef long intptr_t;
typedef unsigned long uintptr_t;
typedef unsigned long size_t;
typedef long ssize_t;
typedef int int32_t;
typedef unsigned int uint32_t;
typedef long int64_t;
typedef unsigned long uint64_t;
typedef unsigned char uint8_t;
typedef signed char int8_t;
typedef unsigned short uint16_t;
extern FILE *stdin, *stdout, *stderr;
#endif
