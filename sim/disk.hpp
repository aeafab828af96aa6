// Simulated disk: files with durable and volatile bytes, short and failing reads and writes, full disk, crashes.
#pragma once
#include "sim.hpp"

#include <algorithm>
#include <istream>
#include <ostream>
#include <stdexcept>
#include <streambuf>
#include <string>

namespace sim
{
	struct File
	{
		std::string data;          // what a reader sees while the machine is up
		std::size_t durable = 0;   // this many bytes survive a crash for certain
		void sync() { durable = data.size(); }
		// power loss: the unsynced tail survives up to an arbitrary byte
		void crash(Rng& r)
		{
			std::size_t tail = data.size() - durable;
			std::size_t keep = tail == 0 ? 0 : r.below(static_cast<std::uint32_t>(tail) + 1);
			if (keep < tail) count("fault:crash_torn_write");
			else count("fault:crash");
			data.resize(durable + keep);
			durable = data.size();
		}
	};

	struct IoError : std::runtime_error { IoError() : std::runtime_error("simulated EIO") {} };

	enum class WriteFault { none, full, error, throws };

	class OutBuf : public std::streambuf
	{
		File& f;
		std::size_t room;   // bytes accepted before the fault
		WriteFault fault;
		std::string pending;
		std::size_t buffer;
	public:
		bool fired = false;
		OutBuf(File& f_, std::size_t buffer_, WriteFault w, std::size_t room_) : f(f_), room(room_), fault(w), buffer(buffer_) {}
	protected:
		bool push(char const* p, std::size_t n)
		{
			tick(20 + n / 64);
			if (fault == WriteFault::none || n <= room) { f.data.append(p, n); if (fault != WriteFault::none) room -= n; return true; }
			f.data.append(p, room);
			room = 0;
			if (!fired)
			{
				fired = true;
				count(fault == WriteFault::full ? "fault:disk_full" : fault == WriteFault::error ? "fault:write_error" : "fault:write_throws");
			}
			if (fault == WriteFault::throws) throw IoError();
			return false;
		}
		bool drain()
		{
			std::string p;
			p.swap(pending);
			return p.empty() || push(p.data(), p.size());
		}
		int_type overflow(int_type c) override
		{
			if (traits_type::eq_int_type(c, traits_type::eof())) return drain() ? 0 : traits_type::eof();
			pending.push_back(traits_type::to_char_type(c));
			if (pending.size() >= buffer && !drain()) return traits_type::eof();
			return c;
		}
		std::streamsize xsputn(char const* s, std::streamsize n) override
		{
			for (std::streamsize i = 0; i < n; ++i) if (overflow(traits_type::to_int_type(s[i])) == traits_type::eof()) return i;
			return n;
		}
		int sync() override { return drain() ? 0 : -1; }
	};

	enum class ReadFault { none, eof, throws };

	class InBuf : public std::streambuf
	{
		File const& f;
		std::size_t at;
		Rng r;
		std::size_t max_chunk;
		ReadFault fault;
		std::size_t limit;
		char buf[64];
	public:
		bool fired = false;
		InBuf(File const& f_, std::uint64_t seed, std::size_t max_chunk_, ReadFault w, std::size_t limit_)
			: f(f_), at(0), r(seed), max_chunk(max_chunk_), fault(w), limit(w == ReadFault::none ? f_.data.size() : std::min(limit_, f_.data.size())) {}
		std::size_t consumed() const { return at - static_cast<std::size_t>(egptr() - gptr()); }
	protected:
		int_type underflow() override
		{
			if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
			if (at >= limit)
			{
				if (fault != ReadFault::none && limit < f.data.size())
				{
					if (!fired) { fired = true; count(fault == ReadFault::eof ? "fault:early_eof" : "fault:read_error"); }
					if (fault == ReadFault::throws) throw IoError();
				}
				return traits_type::eof();
			}
			std::size_t n = 1 + r.below(static_cast<std::uint32_t>(std::min(max_chunk, sizeof buf)));
			if (n < max_chunk) count("fault:short_read");
			n = std::min(n, limit - at);
			tick(10);
			std::copy_n(f.data.data() + at, n, buf);
			at += n;
			setg(buf, buf, buf + n);
			return traits_type::to_int_type(*gptr());
		}
	};
}
