// Replays Registrar.tla and RegQueues.tla behaviours on the registrar with
// sockets of the loopback device.  The handler the code installs is called
// from one of the driver's (-Wl,--wrap=sigaction), so that the driver knows
// which signals have come.  -DKINDS lists the kinds of the sockets.
#include <FlameIDE/Os/Async/Network/Registrar.hpp>
#include <FlameIDE/Os/Network/TcpClient.hpp>
#include <FlameIDE/Os/Network/UdpClient.hpp>
#include <FlameIDE/Os/Network/UdpServer.hpp>
#include <FlameIDE/Os/Constants.hpp>
#include <Generated/Network/Config.hpp>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <signal.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <algorithm>
#include <map>
#include <memory>
#include <thread>
#include "highfd.hpp"
#include "vf.hpp"

using namespace vf;
using namespace flame_ide;
using namespace flame_ide::os::network;
using flame_ide::os::async::network::AcceptedConnection;
using flame_ide::os::async::network::NotificatorBase;
using flame_ide::os::async::network::Registrar;

static struct sigaction theirs;
static volatile int signals[4096];
static volatile int all = 0;
static volatile bool spoiled = false;

static void ours(int signal, siginfo_t *info, void *context)
{
	const int saved = errno;
	errno = 4242;
	theirs.sa_sigaction(signal, info, context);
	if (errno != 4242)
		spoiled = true;
	errno = saved;
	if (info->si_fd >= 0 && info->si_fd < 4096)
		signals[info->si_fd] = signals[info->si_fd] + 1;
	all = all + 1;
}

extern "C" int __real_sigaction(int signal, const struct sigaction *action, struct sigaction *old);
extern "C" int __wrap_sigaction(int signal, const struct sigaction *action, struct sigaction *old)
{
	if (!action || !(action->sa_flags & SA_SIGINFO))
		return __real_sigaction(signal, action, old);
	theirs = *action;
	struct sigaction mine = *action;
	mine.sa_sigaction = ours;
	return __real_sigaction(signal, &mine, old);
}

static int portOf(int fd)
{
	sockaddr_in a = {};
	socklen_t n = sizeof a;
	return ::getsockname(fd, (sockaddr *)&a, &n) < 0 ? -1 : ntohs(a.sin_port);
}

static unsigned short freePort(int type)
{
	int fd = ::socket(AF_INET, type, 0);
	sockaddr_in a = {};
	a.sin_family = AF_INET;
	if (fd < 0 || ::bind(fd, (sockaddr *)&a, sizeof a) < 0)
		_exit(9);
	int port = portOf(fd);
	::close(fd);
	return (unsigned short)port;
}

static sockaddr_in address(int port)
{
	sockaddr_in a = {};
	a.sin_family = AF_INET;
	a.sin_port = htons((unsigned short)port);
	a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	return a;
}

static Ipv4 local(unsigned short port)
{
	Ipv4::Address a;
	char text[] = "127.0.0.1";
	memcpy(a.ip, text, sizeof text);
	a.port = port;
	return Ipv4(a);
}

static void nap(long ms)
{
	timespec t = { ms / 1000, ms % 1000 * 1000000 };
	while (::nanosleep(&t, &t) < 0)
		;
}

struct Count: NotificatorBase
{
	mutable volatile int calls = 0;
	void operator()() const noexcept override { calls = calls + 1; }
};

struct Place
{
	int kind;
	std::unique_ptr<UdpServer> udpServer;
	std::unique_ptr<UdpClient> udpClient;
	std::unique_ptr<TcpServer> listener;
	std::unique_ptr<TcpServer::WithClient> accepted;
	std::unique_ptr<TcpClient> client;
	int peer = -1;            // the driver's end
	std::vector<int> callers; // ports of connections not taken yet
	std::vector<int> mine;    // their descriptors

	int fd() const
	{
		switch (kind)
		{
			case 1: return udpServer->native().descriptor;
			case 2: return udpClient->native().descriptor;
			case 3: return listener->native().descriptor;
			case 4: return accepted->native().descriptor;
		}
		return client->native().descriptor;
	}
};

template<typename F>
long with(Registrar &, Place &p, F f)
{
	switch (p.kind)
	{
		case 1: return f(*p.udpServer);
		case 2: return f(*p.udpClient);
		case 3: return f(*p.listener);
		case 4: return f(*p.accepted);
	}
	return f(*p.client);
}

static const int kinds[] = { KINDS };

struct World
{
	std::vector<Place> places;
	std::unique_ptr<TcpServer> helper; // accepts the clients' connections
	unsigned short helperPort = 0;
	int plain = -1;                    // sends datagrams
	Registrar registrar;
	Count count;
	bool noted = false;
	long patience = 2000;
	long in[6] = {}, out[6] = {};

	World()
	{
		plain = ::socket(AF_INET, SOCK_DGRAM, 0);
		tcp(helper, helperPort);
		// prepare every queue
		std::unique_ptr<UdpServer> us(new UdpServer(freePort(SOCK_DGRAM)));
		std::unique_ptr<UdpClient> uc(new UdpClient(local(helperPort)));
		TcpClient tc(local(helperPort));
		tc.connect();
		TcpServer::WithClient tw(helper->accept());
		registrar.add(*us), registrar.add(*uc), registrar.add(*helper), registrar.add(tw), registrar.add(tc);
		registrar.remove(*us), registrar.remove(*uc), registrar.remove(*helper), registrar.remove(tw), registrar.remove(tc);
	}
	static void tcp(std::unique_ptr<TcpServer> &server, unsigned short &port)
	{
		for (int i = 0; i < 20; ++i)
		{
			port = freePort(SOCK_STREAM);
			server.reset(new TcpServer(port));
			if (*server)
				return;
		}
		_exit(9);
	}
	void close()
	{
		for (auto &p : places)
		{
			if (p.peer >= 0)
				::close(p.peer);
			for (int fd : p.mine)
				::close(fd);
		}
		places.clear();
		registrar.unsetNotificator();
		noted = false;
	}
	void drop()
	{
		for (;;)
		{
			auto c = registrar.popTcpServerAcception();
			if (!c)
				break;
			::close(c.client.descriptor);
		}
	}
	void reset()
	{
		close();
		drop();
		registrar.clear();
		// connections the code accepted and nobody took
		for (int fd = firstDescriptor; fd < firstDescriptor + 1024; ++fd)
			if (fd != plain && fd != helper->native().descriptor)
				::close(fd);
		std::fill(in, in + 6, 0);
		std::fill(out, out + 6, 0);
		for (int k : kinds)
		{
			places.emplace_back();
			Place &p = places.back();
			p.kind = k;
			unsigned short port = 0;
			switch (k)
			{
				case 1:
					for (int i = 0; i < 20; ++i)
					{
						p.udpServer.reset(new UdpServer(freePort(SOCK_DGRAM)));
						if (*p.udpServer)
							break;
					}
					break;
				case 2:
				{
					p.udpClient.reset(new UdpClient(local(9)));
					// takes a port of its own
					sockaddr_in a = address(0);
					::bind(p.fd(), (sockaddr *)&a, sizeof a);
					break;
				}
				case 3:
					tcp(p.listener, port);
					break;
				case 4:
				{
					p.peer = ::socket(AF_INET, SOCK_STREAM, 0);
					auto a = address(helperPort);
					if (::connect(p.peer, (sockaddr *)&a, sizeof a) < 0)
						_exit(9);
					p.accepted.reset(new TcpServer::WithClient(helper->accept()));
					break;
				}
				case 5:
				{
					p.client.reset(new TcpClient(local(helperPort)));
					p.client->connect();
					p.peer = ::accept(helper->native().descriptor, nullptr, nullptr);
					break;
				}
			}
			if (p.fd() < 0)
				_exit(9);
		}
		for (auto &p : places)
			signals[p.fd()] = 0;
		all = 0;
		spoiled = false;
		count.calls = 0;
	}
	std::string finish()
	{
		close();
		drop();
		return "";
	}
	std::string obs() { return spoiled ? str("the handler changed errno") : "0"; }
	std::string live() { return "0"; }

	void await(Place &p, int before, bool expected)
	{
		if (!expected)
			return;
		for (long i = 0; i < patience; ++i)
		{
			if (signals[p.fd()] != before)
				return;
			nap(1);
		}
		patience = 50;
	}
	void write(Place &p)
	{
		if (p.kind <= 2)
		{
			auto a = address(portOf(p.fd()));
			::sendto(plain, "x", 1, 0, (sockaddr *)&a, sizeof a);
		}
		else
			::send(p.peer, "x", 1, MSG_NOSIGNAL);
	}
	std::string happened(Place &p, int before, int calls, int handled, bool expected)
	{
		await(p, before, expected);
		if (noted && count.calls - calls != all - handled)
			return str("the notificator was not called once for each signal");
		return boolean(count.calls != calls);
	}
	void empty(Place &p)
	{
		char b[64];
		if (p.kind != 3)
			while (::recv(p.fd(), b, sizeof b, MSG_DONTWAIT) > 0)
				;
	}
	int pop(int kind)
	{
		switch (kind)
		{
			case 1: return registrar.popUdpServer();
			case 2: return registrar.popUdpClient();
			case 4: return registrar.popTcpServer();
		}
		return registrar.popTcpClient();
	}
	std::string step(In &io)
	{
		::alarm(30);
		const auto op = io.op();
		if (op == "push" || op == "pop")
		{
			const int q = int(io.num());
			return queue(op, q, io.num());
		}
		if (op == "clear")
		{
			for (auto &p : places)
			{
				p.callers.clear();
				signals[p.fd()] = 0;
			}
			registrar.clear();
			std::copy(in, in + 6, out);
			return "0";
		}
		if (op == "note")
		{
			noted = io.num() != 0;
			if (noted)
				registrar.setNotificator(count);
			else
				registrar.unsetNotificator();
			return "0";
		}
		if (op == "invalid")
			return boolean(invalid(int(io.num())));
		if (op == "drain")
			return drain(int(io.num()));
		Place &p = places[io.num() - 1];
		if (op == "add")
			return num(with(registrar, p, [&](auto &s) { return long(registrar.add(s)); }));
		if (op == "remove")
			return num(with(registrar, p, [&](auto &s) { return long(registrar.remove(s)); }));
		const int before = signals[p.fd()], calls = count.calls, handled = all;
		if (op == "arrive")
		{
			long n = io.num();
			bool expected = io.num() != 0;
			if (p.kind == 3)
				call(p, n);
			else
				write(p);
			auto r = happened(p, before, calls, handled, expected);
			empty(p);
			return r;
		}
		if (op == "hang")
		{
			::close(p.peer);
			p.peer = -1;
			return happened(p, before, calls, handled, io.num() != 0);
		}
		if (op == "burst")
		{
			Place &q = places[io.num() - 1];
			sigset_t set, old;
			::sigfillset(&set);
			::pthread_sigmask(SIG_SETMASK, &set, &old);
			write(p);
			write(q);
			nap(2);
			::pthread_sigmask(SIG_SETMASK, &old, nullptr);
			empty(p);
			empty(q);
			return boolean(count.calls != calls);
		}
		if (op == "overflow")
			return overflow(p, before);
		if (op == "disturb")
		{
			int pipes[2];
			if (::pipe(pipes))
				_exit(9);
			sigset_t set, old;
			::sigfillset(&set);
			::pthread_sigmask(SIG_SETMASK, &set, &old);
			std::thread other([&]() { nap(15); write(p); nap(15); ::write(pipes[1], "x", 1) < 0 ? _exit(9) : void(); });
			::pthread_sigmask(SIG_SETMASK, &old, nullptr);
			char c = 0;
			const bool whole = ::read(pipes[0], &c, 1) == 1;
			other.join();
			::close(pipes[0]);
			::close(pipes[1]);
			await(p, before, true);
			empty(p);
			return boolean(whole);
		}
		return str("unknown operation " + op);
	}
	// n connections at once
	void call(Place &p, long n)
	{
		auto a = address(portOf(p.fd()));
		sigset_t set, old;
		::sigfillset(&set);
		::pthread_sigmask(SIG_SETMASK, &set, &old);
		std::vector<int> fds;
		for (long i = 0; i < n; ++i)
		{
			int fd = ::socket(AF_INET, SOCK_STREAM, 0);
			if (::connect(fd, (sockaddr *)&a, sizeof a) < 0)
				_exit(9);
			p.callers.push_back(portOf(fd));
			p.mine.push_back(fd);
		}
		// until the last one can be accepted
		pollfd w = { p.fd(), POLLIN, 0 };
		::poll(&w, 1, 2000);
		nap(n > 1 ? 1 : 0);
		::pthread_sigmask(SIG_SETMASK, &old, nullptr);
	}
	static int descriptors()
	{
		int n = 0;
		for (int fd = firstDescriptor; fd < firstDescriptor + 1024; ++fd)
			n += ::fcntl(fd, F_GETFD) >= 0;
		return n;
	}
	std::string overflow(Place &p, int before)
	{
		drop();
		for (auto &x : places)
			x.callers.clear();
		AcceptedConnection c;
		c.server = 100000;
		c.client = os::Socket{ 100000 };
		while (registrar.pushTcpServerAcception(c))
			;
		const int opened = descriptors();
		auto a = address(portOf(p.fd()));
		int fd = ::socket(AF_INET, SOCK_STREAM, 0);
		if (::connect(fd, (sockaddr *)&a, sizeof a) < 0)
			_exit(9);
		await(p, before, true);
		pollfd w = { fd, POLLIN, 0 };
		char b;
		const bool closed = ::poll(&w, 1, 2000) == 1 && ::recv(fd, &b, 1, MSG_DONTWAIT) <= 0;
		::close(fd);
		const bool same = descriptors() == opened;
		while (registrar.popTcpServerAcception())
			;
		if (!closed)
			return str("a connection that did not fit was left open");
		return boolean(same);
	}
	std::string drain(int kind)
	{
		std::vector<int> got(places.size());
		if (kind == 3)
		{
			for (;;)
			{
				auto c = registrar.popTcpServerAcception();
				if (!c)
					break;
				int at = place(c.server, 3);
				if (at < 0)
					return str("a connection of an unknown server");
				auto &p = places[at].callers;
				auto who = std::find(p.begin(), p.end(), int(ntohs(c.client.address.sin_port)));
				if (who == p.end())
					return str("an unknown connection");
				p.erase(who);
				::close(c.client.descriptor);
				++got[at];
			}
			return ints(got);
		}
		std::map<int, int> seen;
		for (int fd = pop(kind); fd >= 0; fd = pop(kind))
		{
			int at = place(fd, kind);
			if (at < 0)
				return str("an event of an unknown socket");
			got[at] = 1;
			++seen[at];
		}
		for (auto &x : seen)
			if (x.second != signals[places[x.first].fd()])
				return str("as many events as signals expected");
		for (auto &p : places)
			if (p.kind == kind)
				signals[p.fd()] = 0;
		return ints(got);
	}
	int place(int fd, int kind)
	{
		for (size_t i = 0; i < places.size(); ++i)
			if (places[i].kind == kind && places[i].fd() == fd)
				return int(i);
		return -1;
	}
	bool invalid(int kind)
	{
		switch (kind)
		{
			case 1: { UdpServer s(freePort(SOCK_DGRAM)); UdpServer t(flame_ide::move(s)); return registrar.add(s) == 0; }
			case 2: { UdpClient s(local(9)); UdpClient t(flame_ide::move(s)); return registrar.add(s) == 0; }
			case 3: { TcpServer s(freePort(SOCK_STREAM)); TcpServer t(flame_ide::move(s)); return registrar.add(s) == 0; }
			case 4: { TcpServer::WithClient s(os::SOCKET_INVALID, 0); return registrar.add(s) == 0; }
		}
		TcpClient s(local(9));
		TcpClient t(flame_ide::move(s));
		return registrar.add(s) == 0;
	}
	std::string queue(const std::string &op, int q, long n)
	{
		long done = 0;
		for (long i = 0; i < n; ++i)
		{
			if (op == "push")
			{
				const int v = int(in[q] + 10);
				AcceptedConnection c;
				c.server = v;
				c.client = os::Socket{ v + 1 };
				bool r = q == 1 ? registrar.pushUdpServer(v) : q == 2 ? registrar.pushUdpClient(v)
						: q == 3 ? registrar.pushTcpServerAcception(c)
						: q == 4 ? registrar.pushTcpServer(v) : registrar.pushTcpClient(v);
				if (r)
					++in[q], ++done;
				continue;
			}
			const int v = int(out[q] + 10);
			if (q == 3)
			{
				auto c = registrar.popTcpServerAcception();
				if (!c)
					continue;
				if (c.server != v || c.client.descriptor != v + 1)
					return str("not the oldest connection");
			}
			else
			{
				const int got = pop(q);
				if (got < 0)
					continue;
				if (got != v)
					return str("not the oldest event");
			}
			++out[q], ++done;
		}
		return num(done);
	}
};

int main(int argc, char **argv)
{
	cpu_set_t set;
	CPU_ZERO(&set);
	CPU_SET(::sched_getcpu(), &set);
	::sched_setaffinity(0, sizeof set, &set);
	descriptorsFromFirst();
	World world;
	return drive(world);
}
