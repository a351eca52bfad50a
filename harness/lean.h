/*
	LEAN.H
	------
	A codec is also a query processor, which holds hundreds of megabytes, most of it zero. The pages that hold nothing but zero are given
	back (they read as zero when next used), so that a check with every codec in each of its processes fits in memory.
*/
#pragma once
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
extern "C" size_t __sanitizer_get_allocated_size(const volatile void *object);

static void give_back_zero_pages(void *object)
	{
	const size_t page = 65536;
	static const char zero[page] = {};
	size_t size = __sanitizer_get_allocated_size(object);
	for (uintptr_t at = ((uintptr_t)object + page - 1) / page * page; at + page <= (uintptr_t)object + size; at += page)
		if (memcmp((void *)at, zero, page) == 0) madvise((void *)at, page, MADV_DONTNEED);
	}
