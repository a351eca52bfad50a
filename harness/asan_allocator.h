/* a JASS allocator whose every block is its own heap block, so that AddressSanitizer sees the ends */
#pragma once
#include <vector>
#include "allocator.h"
class asan_allocator : public JASS::allocator
	{
	std::vector<void *> blocks;
	public:
		virtual ~asan_allocator() { rewind(); }
		virtual bool operator==(const JASS::allocator &with) { return this == &with; }
		virtual bool operator!=(const JASS::allocator &with) { return this != &with; }
		virtual void *malloc(size_t bytes, size_t alignment = alignment_boundary) { void *p = ::malloc(bytes); memset(p, 0xe5, bytes); blocks.push_back(p); used += bytes; allocated += bytes; return p; }
		virtual void rewind(void) { for (auto b : blocks) ::free(b); blocks.clear(); used = 0; allocated = 0; }
	};
