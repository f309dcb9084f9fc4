// libstored configuration of the simulators.
#ifndef STORED_CONFIG_H
#define STORED_CONFIG_H
#ifdef __cplusplus
#	include <cstddef>
#	include <new>

namespace sim {
void* arenaAlloc(size_t n);
void arenaFree(void* p, size_t n) noexcept;

template <typename T>
class Allocator {
public:
	using value_type = T;
	Allocator() noexcept = default;
	template <typename A>
	Allocator(Allocator<A> const&) noexcept
	{}
	T* allocate(size_t n)
	{
		return static_cast<T*>(arenaAlloc(sizeof(T) * n));
	}
	void deallocate(T* p, size_t n) noexcept
	{
		arenaFree(p, sizeof(T) * n);
	}
	template <typename A>
	bool operator==(Allocator<A> const&) const noexcept
	{
		return true;
	}
	template <typename A>
	bool operator!=(Allocator<A> const&) const noexcept
	{
		return false;
	}
};
} // namespace sim

namespace stored {
struct Config : public DefaultConfig {
	template <typename T>
	struct Allocator {
		typedef sim::Allocator<T> type;
	};

#	ifdef SIM_NO_MEM
	static bool const DebuggerReadMem = false;
	static bool const DebuggerWriteMem = false;
#	else
	static bool const DebuggerReadMem = true;
	static bool const DebuggerWriteMem = true;
#	endif
#	ifdef SIM_CONFIG_EXTRA
	SIM_CONFIG_EXTRA
#	endif
};
} // namespace stored
#endif
#endif
