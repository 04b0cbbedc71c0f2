// C01: every on-disk record type reads back exactly what was written, in the documented number of bytes,
// independent of what the buffer or the object contained before.
#include <vp.h>
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <cstring>

extern "C" { int knob_type = 0; }

static const int YB = KMAX == 34 ? 40 : 38;
static const int PB = KMAX == 34 ? 35 : 32;

static uint64_t S(const char* n, int bits) { return vp_sym(n, bits); }

// guard bytes around the record: nothing outside disk_size bytes may change
template<class T> struct Buf {
	uint8_t raw[T::disk_size + 16];
	uint8_t guard[16];
	uint8_t* p() { return raw + 8; }
	Buf() {
		vp_uninit(raw, sizeof(raw));
		for(int i = 0; i < 8; ++i) { raw[i] = guard[i] = (uint8_t)S("guard", 8); raw[T::disk_size + 8 + i] = guard[8 + i] = (uint8_t)S("guard", 8); }
	}
	void check() {
		bool ok = true;
		for(int i = 0; i < 8; ++i) { ok &= raw[i] == guard[i]; ok &= raw[T::disk_size + 8 + i] == guard[8 + i]; }
		vp_assert(ok, "record write touches bytes outside its disk_size");
	}
};

template<class T> void roundtrip(const T& in, T& out, size_t want_size)
{
	Buf<T> b;
	vp_assert(T::disk_size == want_size, "disk size of the record type");
	vp_uninit(&out, sizeof(out));
	const size_t w = in.write(b.p());
	vp_assert(w == T::disk_size, "write() returns the record size");
	b.check();
	const size_t r = out.read(b.p());
	vp_assert(r == T::disk_size, "read() returns the record size");
	b.check();
	// writing the record read back gives the same bytes
	uint8_t again[T::disk_size];
	vp_uninit(again, sizeof(again));
	out.write(again);
	bool same = true;
	for(size_t i = 0; i < T::disk_size; ++i) same &= again[i] == b.p()[i];
	vp_assert(same, "re-encoding a decoded record gives the same bytes");
	// the stdio helpers store and load exactly this record
	FILE* f = fopen("rec.tmp", "wb");
	vp_assert(write_entry<T>(f, in), "write_entry succeeds");
	vp_assert(write_entry<T>(f, in), "write_entry succeeds");
	fclose(f);
	vp_assert(vpfs_size("rec.tmp") == 2 * (int64_t)T::disk_size, "write_entry writes disk_size bytes");
	f = fopen("rec.tmp", "rb");
	T x; vp_uninit(&x, sizeof(x));
	vp_assert(read_entry<T>(f, x), "read_entry succeeds");
	vp_assert(read_entry<T>(f, x), "read_entry succeeds");
	T z = x;
	vp_assert(!read_entry<T>(f, z), "read_entry reports the end of the file");
	fclose(f);
	uint8_t b2[T::disk_size]; vp_uninit(b2, sizeof(b2));
	x.write(b2);
	for(size_t i = 0; i < T::disk_size; ++i) same &= b2[i] == b.p()[i];
	vp_assert(same, "read_entry returns the stored record");
	for(size_t i = 0; i < T::disk_size; ++i) vp_observe(b2[i], "byte");
}

template<class T> void test_xm(size_t n)
{
	T a, b;
	a.y = S("y", YB); a.pos = S("pos", PB); a.off = S("off", 10);
	for(auto& m : a.meta) m = S("meta", 8);
	roundtrip(a, b, (KMAX == 34 ? 11 : 10) + n);
	vp_assert(a.y == b.y, "y survives"); vp_assert(a.pos == b.pos, "pos survives"); vp_assert(a.off == b.off, "off survives");
	bool ok = a.meta.size() == n;
	for(size_t i = 0; i < a.meta.size(); ++i) ok &= a.meta[i] == b.meta[i];
	vp_assert(ok, "metadata survives");
	vp_assert(phase1::get_y<T>{}(b) == a.y, "sort key of the record is y");
}

extern "C" void vp_main()
{
	const int m = KMAX == 34 ? 1 : 0;
	switch(knob_type) {
	case 0: {
		phase1::entry_1 a, b; a.y = S("y", 40); a.x = S("x", KMAX);
		roundtrip(a, b, 5 + (KMAX == 34 ? 5 : 4));
		vp_assert(a.y == b.y, "y survives"); vp_assert(a.x == b.x, "x survives");
		vp_assert(phase1::get_y<phase1::entry_1>{}(b) == a.y, "sort key of the record is y");
		break;
	}
	case 1: test_xm<phase1::entry_2>(8 + m); break;
	case 2: test_xm<phase1::entry_3>(16 + m); break;
	case 3: test_xm<phase1::entry_4>(16 + m); break;
	case 4: test_xm<phase1::entry_5>(12 + m); break;
	case 5: test_xm<phase1::entry_6>(8 + m); break;
	case 6: {
		phase1::entry_7 a, b; a.y = S("y", KMAX); a.pos = S("pos", PB); a.off = S("off", 10);
		roundtrip(a, b, 10 + m);
		vp_assert(a.y == b.y, "y survives"); vp_assert(a.pos == b.pos, "pos survives"); vp_assert(a.off == b.off, "off survives");
		phase1::entry_7 c; c.assign(a);
		vp_assert(c.y == a.y && c.pos == a.pos && c.off == a.off, "assign copies the record");
		break;
	}
	case 7: {
		phase1::entry_1 e; e.y = S("y", 40); e.x = S("x", KMAX);
		phase1::tmp_entry_1 a, b; vp_uninit(&a, sizeof(a)); a.assign(e);
		vp_assert(a.x == e.x, "assign keeps x");
		roundtrip(a, b, KMAX == 34 ? 5 : 4);
		vp_assert(a.x == b.x, "x survives");
		break;
	}
	case 8: {
		phase1::entry_2 e; e.y = S("y", YB); e.pos = S("pos", PB); e.off = S("off", 10);
		phase1::tmp_entry_x a, b; vp_uninit(&a, sizeof(a)); a.assign(e);
		vp_assert(a.pos == e.pos && a.off == e.off, "assign keeps pos and off");
		roundtrip(a, b, 6);
		vp_assert(a.pos == b.pos, "pos survives"); vp_assert(a.off == b.off, "off survives");
		phase2::entry_x c; vp_uninit(&c, sizeof(c)); c.assign(b);
		vp_assert(c.pos == e.pos && c.off == e.off, "assign keeps pos and off");
		break;
	}
	case 9: {
		phase2::entry_x a, b; a.key = S("key", PB); a.pos = S("pos", PB); a.off = S("off", 10);
		roundtrip(a, b, 10);
		vp_assert(a.key == b.key, "key survives"); vp_assert(a.pos == b.pos, "pos survives"); vp_assert(a.off == b.off, "off survives");
		vp_assert(phase2::get_pos<phase2::entry_x>{}(b) == a.pos, "sort key of the record is pos");
		break;
	}
	case 10: {
		phase3::entry_lp a, b; 
		if(KMAX == 34) a.point = ((uintlp_t)S("p_hi", 34) << 16 << 17) | S("p_lo", 33); else a.point = S("point", 63);
		a.key = S("key", PB);
		roundtrip(a, b, KMAX == 34 ? 13 : 12);
		vp_assert(a.point == b.point, "line point survives"); vp_assert(a.key == b.key, "key survives");
		vp_assert(phase3::get_line_point<phase3::entry_lp>{}(b) == a.point, "sort key of the record is the line point");
		break;
	}
	case 11: {
		phase3::entry_np a, b; a.key = S("key", PB); a.pos = S("pos", PB);
		roundtrip(a, b, KMAX == 34 ? 9 : 8);
		vp_assert(a.key == b.key, "key survives"); vp_assert(a.pos == b.pos, "pos survives");
		vp_assert(phase3::get_sort_key<phase3::entry_np>{}(b) == a.key && phase3::get_new_pos<phase3::entry_np>{}(b) == a.pos, "accessors");
		break;
	}
	}
	vp_cover("done");
}
