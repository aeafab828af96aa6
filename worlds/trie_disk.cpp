// P02: what was saved is what is loaded, on a disk that tears, truncates, fills up and fails.
// P04: atom ids.
#include "trie_common.hpp"
#include "../sim/disk.hpp"

#include <new>
#include <sstream>

namespace
{
	using namespace tw;

	template <typename Trie, typename Label>
	struct DiskWorld : World
	{
		KeyGen<Label> gen;
		Trie t[2];
		Model<Label> m[2];
		File file;
		struct Record { Model<Label> model; std::size_t body, end; }; // end of the record itself, end of the marker behind it
		std::vector<Record> records;  // in file order
		std::size_t acked = 0;        // the first so many were saved whole; one more may follow, cut short
		bool torn() const { return acked < records.size(); }

		int length(Rng& r) override { static int const n[] = { 6, 14, 30 }; return n[r.below(3)] + r.below(8); }
		int fault_percent(Rng& r) override { static int const p[] = { 0, 20, 50 }; return p[r.below(3)]; }
		bool leak_check() const override { return true; }
		void start(Rng& cfg) override { gen.configure(cfg); }

		static constexpr char const* marker = "MARK";

		void mutate(Rng& r, int i)
		{
			if (r.chance(1, 200)) // far larger, also with more than 65536 integers
			{
				int n = r.chance(1, 8) ? 9000 : 200 + r.below(800);
				std::vector<Key<Label>> list;
				for (; n; --n)
				{
					Key<Label> k;
					for (int l = 1 + r.below(7); l; --l) k.push_back(r.chance(1, 2) ? gen.label(r) : static_cast<Label>(r.below(256)));
					list.push_back(k);
				}
				log("trie%d assign %zu keys", i, list.size());
				t[i].assign(list.begin(), list.end());
				m[i].clear();
				for (auto const& k : list) m[i].emplace(k, 0);
				count("probe:large_trie");
				return;
			}
			for (int n = 1 + r.below(6); n; --n)
			{
				Key<Label> k = gen(r, keys_of<Label>(m[i]));
				if (r.chance(3, 4)) { std::uint32_t v = value(r); log("trie%d insert %s = %u", i, show_key<Label>(k).c_str(), v); t[i].insert(k, v); if (!k.empty()) m[i].emplace(k, v); }
				else { log("trie%d erase %s", i, show_key<Label>(k).c_str()); t[i].erase(k); m[i].erase(k); }
			}
		}

		void save(Rng& r, int i, bool faults)
		{
			if (torn()) return; // nothing can follow a torn record
			std::ostringstream plain;
			plain << t[i];
			std::size_t start = file.data.size(), body = start + plain.str().size();
			WriteFault w = WriteFault::none;
			std::size_t room = 0;
			if (faults) { static WriteFault const k[] = { WriteFault::full, WriteFault::error, WriteFault::throws }; w = r.pick(k); room = r.below(r.chance(1, 3) ? 12 : 4000); }
			OutBuf buf(file, 1 + r.below(200), w, room);
			std::ostream os(&buf);
			os << t[i];
			os.write(marker, 4);
			os.flush();
			log("save trie%d (%zu keys): %s, file %zu bytes", i, m[i].size(), os.good() ? "ok" : "failed", file.data.size());
			SIM_REQUIRE(os.good() == !buf.fired, "save-report", "the write %s but the stream says %s", buf.fired ? "failed" : "succeeded", os.good() ? "good" : "bad");
			records.push_back({ m[i], body, body + 4 });
			if (os.good())
			{
				SIM_REQUIRE(file.data.size() == body + 4, "save-report", "the save reports success after writing %zu of %zu bytes", file.data.size() - start, body + 4 - start);
				++acked;
				if (r.chance(1, 2)) file.sync();
			}
		}

		void crash(Rng& r)
		{
			file.crash(r);
			log("crash: %zu bytes left", file.data.size());
			while (acked > 0 && records[acked - 1].end > file.data.size()) --acked;
			std::size_t whole = acked ? records[acked - 1].end : 0;
			records.resize(file.data.size() > whole ? acked + 1 : acked, Record{});
		}

		void load_all(Rng& r, bool faults)
		{
			ReadFault w = ReadFault::none;
			std::size_t limit = file.data.size();
			if (faults && limit) { w = r.chance(1, 2) ? ReadFault::eof : ReadFault::throws; limit = r.below(static_cast<std::uint32_t>(limit)); }
			InBuf buf(file, r.next(), 1 + r.below(60), w, limit);
			std::istream is(&buf);
			if (faults && r.chance(1, 4)) is.exceptions(std::ios_base::badbit);
			// the container being loaded has contents of its own
			Trie x;
			Model<Label> y;
			for (int n = r.below(4); n; --n) { Key<Label> k = gen(r, {}); if (k.empty()) continue; x.insert(k, 9); y.emplace(k, 9); }
			std::size_t start = 0;
			for (std::size_t n = 0; ; ++n)
			{
				bool whole = n < records.size() && records[n].end <= limit;
				bool partial_marker = n < records.size() && !whole && records[n].body <= limit; // record complete, only the marker is cut
				std::int64_t nth = faults && r.chance(1, 4) ? static_cast<std::int64_t>(r.below(6)) : -1;
				bool oom = false;
				{
					AllocFault af(nth);
					try { is >> x; } catch (std::bad_alloc const&) { oom = true; } catch (std::exception const&) {}
					oom = oom || af.fired();
				}
				if (oom)
				{
					log("load record %zu: out of memory", n);
					if (whole && is.good()) { /* retried inside the library */ }
					audit<Trie, Label>(x, y, "after a load that ran out of memory");
					return;
				}
				if (!whole && !partial_marker)
				{
					log("load record %zu: must fail", n);
					SIM_REQUIRE(is.fail() || is.bad(), "load-report", "loading a record cut after %zu of its bytes reports success", limit - start);
					audit<Trie, Label>(x, y, "after a failed load");
					return;
				}
				log("load record %zu: must succeed", n);
				SIM_REQUIRE(is.good(), "load-report", "loading record %zu, which was saved whole, fails", n);
				y = records[n].model;
				audit<Trie, Label>(x, y, "after load");
				SIM_REQUIRE(buf.consumed() == records[n].body, "load-extent", "loading a record consumed the file up to byte %zu, its last byte is %zu", buf.consumed(), records[n].body);
				if (partial_marker) return;
				char mk[4] = {};
				is.read(mk, 4);
				SIM_REQUIRE(is.good() && std::string(mk, 4) == marker, "load-extent", "what follows the record on the stream is lost");
				start = records[n].end;
				if (r.chance(1, 3)) // the loaded container lives on
				{
					for (int c = 0; c < 3; ++c) { Key<Label> k = gen(r, keys_of<Label>(y)); x.insert(k, 3); if (!k.empty()) y.emplace(k, 3); }
					if (!y.empty()) { auto k = y.begin()->first; x.erase(k); y.erase(k); }
					audit<Trie, Label>(x, y, "loaded container in use");
				}
			}
		}

		void memory(Rng& r, int i) // integer sequences
		{
			Trie x;
			Key<Label> k0(1, static_cast<Label>(0x62));
			if (r.chance(1, 2)) x.insert(k0, 1);
			Trie const& src = t[i];
			int how = r.below(6);
			log("rebuild from integers, way %d", how);
			std::vector<std::int32_t> v(src.ibegin(), src.iend());
			switch (how)
			{
			case 0: x.assign(v.begin(), v.end()); break;
			case 1: { std::vector<std::uint32_t> u(v.begin(), v.end()); x = Trie(u.begin(), u.end()); break; }
			case 2: { auto a = wordring::serialize_iterator(src.ibegin()), b = wordring::serialize_iterator(src.iend()); std::vector<char> c(a, b); x.assign(c.begin(), c.end()); break; }
			case 3: { auto a = wordring::serialize_iterator(src.ibegin()), b = wordring::serialize_iterator(src.iend()); std::string c(a, b); std::vector<std::uint8_t> d(c.begin(), c.end()); x.assign(d.begin(), d.end()); break; }
			case 4: { auto a = wordring::serialize_iterator(src.ibegin()), b = wordring::serialize_iterator(src.iend()); Trie z(a, b); x.swap(z); break; }
			default: { std::vector<std::uint16_t> h; for (std::int32_t n : v) { h.push_back(static_cast<std::uint16_t>(static_cast<std::uint32_t>(n) >> 16)); h.push_back(static_cast<std::uint16_t>(n)); } x.assign(h.begin(), h.end()); }
			}
			audit<Trie, Label>(x, m[i], "rebuilt from integers");
			audit<Trie, Label>(src, m[i], "source of the integers");
			t[i].swap(x);
		}

		void step(Rng& r, bool faults) override
		{
			int i = r.below(2);
			int op = r.below(100);
			if (op < 35) mutate(r, i);
			else if (op < 58) save(r, i, faults && r.chance(1, 2));
			else if (op < 66) { if (faults) crash(r); else { file.sync(); log("sync"); } }
			else if (op < 86) load_all(r, faults);
			else if (op < 96) memory(r, i);
			else { log("new file"); file = File(); records.clear(); acked = 0; }
			audit<Trie, Label>(t[i], m[i], "live");
			history(digest<Label>(m[i]));
			cover(mix(digest<Label>(m[i]), acked * 2 + torn()));
		}

		void finish() override
		{
			Rng r(5);
			// faults have stopped: every acknowledged record loads
			load_all(r, false);
		}
	};

	using D1 = DiskWorld<wordring::trie<char>, char>;
	using D2 = DiskWorld<wordring::trie<char32_t>, char32_t>;
	using D3 = DiskWorld<wordring::stable_trie<char>, char>;
	using D4 = DiskWorld<wordring::stable_trie<char16_t>, char16_t>;
	SIM_WORLD("P02", D1);
	SIM_WORLD("P02", D2);
	SIM_WORLD("P02", D3);
	SIM_WORLD("P02", D4);
}
