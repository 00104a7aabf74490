// Runs programs under vsched and prints the distinct executions as traces.
//
// Input:  "@p <start> <threads>", one line "<n> op <list> op <list> ..." per thread,
//         then "go <executions> <preemptions> <seed> <interrupts> <failures>".
// Output: "#p", then one line "T <json>" per distinct execution, "#end".
#pragma once
#include "vsched.hpp"
#include <algorithm>
#include <cstdio>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace traced
{

struct Op { std::string name; std::vector<long> args; };
using Program = std::vector<std::vector<Op>>;

inline std::string quote(const std::string &s) { return "\"" + s + "\""; }

// Events of the program's threads (numbered from 1).
inline void call(int t, const std::string &op, const std::vector<long> &args)
{
	std::string a;
	for (long x : args)
		a += (a.empty() ? "" : ",") + std::to_string(x);
	vs::event("{\"e\":\"call\",\"t\":" + std::to_string(t) + ",\"op\":" + quote(op) + ",\"a\":[" + a + "]}");
}
inline void ret(int t, const std::string &r)
{
	vs::event("{\"e\":\"ret\",\"t\":" + std::to_string(t) + ",\"r\":" + r + "}");
}

// Neighbouring calls may be exchanged, and neighbouring returns.
inline void normalise(std::vector<std::string> &v)
{
	size_t i = 0;
	auto kind = [](const std::string &s) { return s.substr(0, 10); };
	while (i < v.size())
	{
		size_t j = i;
		while (j < v.size() && kind(v[j]) == kind(v[i]))
			++j;
		std::sort(v.begin() + i, v.begin() + j);
		i = j;
	}
}

// `body(start, program)` runs inside every execution as its first thread.
// `threads` is how many threads a trace may mention (0: as many as the program has).
inline int serve(const std::function<void(long, const Program &)> &body, size_t threads = 0)
{
	std::string line;
	Program program;
	long start = 0;
	while (std::getline(std::cin, line))
	{
		std::istringstream in(line);
		std::string word;
		in >> word;
		if (word == "@p")
		{
			size_t n = 0;
			in >> start >> n;
			program.clear();
		}
		else if (word == "go")
		{
			vs::Options o;
			in >> o.executions >> o.preemptions >> o.seed >> o.interrupts >> o.failures;
			std::printf("#p\n");
			std::fflush(stdout);
			std::set<std::string> seen;
			vs::explore(o, [&] { body(start, program); }, [&](const vs::Execution &e)
			{
				auto events = e.events;
				normalise(events);
				std::string text;
				for (auto &x : events)
					text += x + ",";
				text += std::string("{\"e\":\"end\",\"how\":") + (e.end == vs::End::FINISHED ? "\"finished\"}"
						: "\"stuck\"}");
				text = "{\"start\":" + std::to_string(start) + ",\"threads\":" + std::to_string(threads ? threads : program.size())
						+ ",\"endless\":" + (e.end == vs::End::ENDLESS ? "true" : "false")
						+ ",\"faults\":[" + (e.faults.empty() ? "" : quote(e.faults[0])) + "],\"events\":[" + text + "]}";
				if (seen.insert(text).second)
					std::printf("T %s\n", text.c_str());
			});
			std::printf("#end\n");
			std::fflush(stdout);
		}
		else if (word == "quit")
			break;
		else
		{
			size_t n = std::stoul(word);
			program.emplace_back();
			for (size_t i = 0; i < n; ++i)
			{
				Op o;
				size_t args = 0;
				in >> o.name >> args;
				o.args.resize(args);
				for (auto &x : o.args)
					in >> x;
				program.back().push_back(o);
			}
		}
	}
	return 0;
}

} // namespace traced
