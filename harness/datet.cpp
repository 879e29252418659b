// C21: date-time values.
#include "vf.h"
#include <time.h>
#include <sys/time.h>
#include "Primitives/DateTime.h"
#include "Exception.h"
using namespace vl;
using namespace vf;

static std::map<std::string, DateTime> v;
static vuint64_t delta(const std::string& t)
{
	auto p = nums(t);
	return (vuint64_t)((vint64_t)p[0] * 86400000 + p[1]);
}
static std::string fields(const DateTime& d)
{
	std::vector<long> f = { (long)d.year, (long)d.month, (long)d.day, (long)d.hour, (long)d.minute, (long)d.second, (long)d.milliseconds, (long)d.dayOfWeek };
	return js(f);
}
static Raw val(const DateTime& d) { return Raw{ "[\"val\"," + fields(d) + "]" }; }
static std::string clocknow()
{
	struct timeval tv;
	gettimeofday(&tv, nullptr);
	long d = tv.tv_sec / 86400, ms = (tv.tv_sec % 86400) * 1000 + tv.tv_usec / 1000;
	return js(std::vector<long>{ d, ms });
}
static long sign(vuint64_t a, vuint64_t b) { return a < b ? -1 : a > b ? 1 : 0; }
struct Fake : Object, virtual IDateTimeImpl
{
	int froms = 0;
	DateTime FromDateTime(vint y, vint mo, vint d, vint h, vint mi, vint s, vint ms) override { DateTime r; r.osInternal = y + mo + d + h + mi + s + ms; return r; }
	DateTime FromOSInternal(vuint64_t x) override { froms++; DateTime r; r.osInternal = x; return r; }
	vuint64_t LocalTime() override { return 1000; }
	vuint64_t UtcTime() override { return 2000; }
	vuint64_t LocalToUtcTime(vuint64_t x) override { return x + 7; }
	vuint64_t UtcToLocalTime(vuint64_t x) override { return x + 8; }
	vuint64_t Forward(vuint64_t x, vuint64_t ms) override { return x + 3 * ms; }
	vuint64_t Backward(vuint64_t x, vuint64_t ms) override { return x - 5 * ms; }
};

int main(int argc, char** argv)
{
	// argv[1]: the zone, for TZ
	setenv("TZ", argv[1], 1);
	tzset();
	return run(argc, argv, [](const Toks& t)
	{
		Obj o;
		o.f("o", echo(t));
		auto& n = t[0];
		Raw r;
		if (n == "reset")
		{
			v.clear();
			for (auto& s : items(t[2])) v[s] = DateTime::FromOSInternal(0);
			r = Raw{ "[\"ok\"]" };
		}
		else if (n == "from")
		{
			auto a = nums(t[2]);
			r = val(v[t[1]] = DateTime::FromDateTime(a[0], a[1], a[2], a[3], a[4], a[5], a[6]));
		}
		else if (n == "reos") r = val(v[t[1]] = DateTime::FromOSInternal(v[t[2]].osInternal));
		else if (n == "copy") r = val(v[t[1]] = v[t[2]]);
		else if (n == "forward") r = val(v[t[1]] = v[t[2]].Forward(delta(t[3])));
		else if (n == "backward") r = val(v[t[1]] = v[t[2]].Backward(delta(t[3])));
		else if (n == "toutc") r = val(v[t[1]] = v[t[2]].ToUtcTime());
		else if (n == "tolocal") r = val(v[t[1]] = v[t[2]].ToLocalTime());
		else if (n == "cmp")
		{
			auto &a = v[t[1]], &b = v[t[2]];
			auto c = a <=> b;
			bool ok = (c < 0) == (a < b) && (c > 0) == (a > b) && (c == 0) == (a == b) && (a != b) == !(a == b) && (c <= 0) == (a <= b) && (c >= 0) == (a >= b);
			r = Raw{ "[\"cmp\"," + js(!ok ? 9 : c < 0 ? -1 : c > 0 ? 1 : 0) + "," + js(a == b ? 1 : 0) + "," +
				js(sign(a.osMilliseconds, b.osMilliseconds)) + "," + js(sign(a.osInternal, b.osInternal)) + "]" };
		}
		else if (n == "now" || n == "nowutc")
		{
			auto t0 = clocknow();
			v[t[1]] = n == "now" ? DateTime::LocalTime() : DateTime::UtcTime();
			auto t1 = clocknow();
			r = val(v[t[1]]);
			o.f("t0", Raw{ t0 }).f("t1", Raw{ t1 });
		}
		else if (n == "inject")
		{
			Fake f;
			InjectDateTimeImpl(&f);
			DateTime x = DateTime::FromOSInternal(100);
			std::vector<long> w = {
				(long)DateTime::LocalTime().osInternal, (long)DateTime::UtcTime().osInternal, (long)x.ToUtcTime().osInternal, (long)x.ToLocalTime().osInternal,
				(long)x.Forward(10).osInternal, (long)x.Backward(10).osInternal, (long)DateTime::FromDateTime(50, 9, 8, 7, 2, 1, 0).osInternal, (long)0 };
			w.back() = f.froms - 2;
			InjectDateTimeImpl(nullptr);
			r = Raw{ "[\"inject\"," + js(w) + "]" };
		}
		else bad_input(n);
		o.f("r", r);
		emit(o);
	});
}
