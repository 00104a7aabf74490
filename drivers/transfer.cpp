// Replays Datagrams.tla (-DUDP) and Connections.tla behaviours on real sockets
// of the loopback device.  -DRAW uses the functions given by callbacks()
// instead of the objects' own ones.
#include <FlameIDE/Os/Network/TcpClient.hpp>
#include <FlameIDE/Os/Network/TcpServer.hpp>
#include <FlameIDE/Os/Network/UdpClient.hpp>
#include <FlameIDE/Os/Network/UdpServer.hpp>
#include <FlameIDE/Os/Constants.hpp>
#include <fcntl.h>
#include <poll.h>
#include <sched.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <time.h>
#include <unistd.h>
#include <memory>
#include "highfd.hpp"
#include "vf.hpp"

using namespace vf;
using namespace flame_ide;
using namespace flame_ide::os::network;
using Bytes = std::vector<byte_t>;

// a port nobody uses
static unsigned short freePort(int type)
{
	int fd = ::socket(AF_INET, type, 0);
	sockaddr_in a = {};
	a.sin_family = AF_INET;
	socklen_t n = sizeof a;
	if (fd < 0 || ::bind(fd, (sockaddr *)&a, sizeof a) < 0 || ::getsockname(fd, (sockaddr *)&a, &n) < 0)
		_exit(9);
	::close(fd);
	return ntohs(a.sin_port);
}

static int localPort(int fd)
{
	sockaddr_in a = {};
	socklen_t n = sizeof a;
	return ::getsockname(fd, (sockaddr *)&a, &n) < 0 ? -1 : ntohs(a.sin_port);
}

static Ipv4 local(unsigned short port)
{
	Ipv4::Address a;
	char text[] = "127.0.0.1";
	memcpy(a.ip, text, sizeof text);
	a.port = port;
	return Ipv4(a);
}

static bool ready(int fd)
{
	pollfd p = { fd, POLLIN, 0 };
	return ::poll(&p, 1, 10000) == 1;
}

static bool arrived(int fd, long bytes)
{
	for (int i = 0; i < 10000; ++i)
	{
		int have = 0;
		if (::ioctl(fd, FIONREAD, &have) < 0)
			return false;
		if (have >= bytes)
			return true;
		timespec t = { 0, 1000000 };
		::nanosleep(&t, nullptr);
	}
	return false;
}

static NetworkBase::Range range(Bytes &b) { return NetworkBase::Range{ b.data(), b.data() + b.size() }; }
static NetworkBase::ConstRange range(const Bytes &b)
{
	return NetworkBase::ConstRange{ b.data(), b.data() + b.size() };
}

static const byte_t GUARD = byte_t(0xA5);

#ifdef UDP

static byte_t letter(long content, long at) { return byte_t(content * 37 + at * 11 + at / 256 * 5); }
static Bytes message(long content, long n)
{
	Bytes b(static_cast<size_t>(n));
	for (long i = 0; i < n; ++i)
		b[i] = letter(content, i);
	return b;
}
// which message the bytes begin, 0 if none
static long which(const Bytes &b, long n)
{
	for (long c = 1; c <= CONTENTS; ++c)
	{
		bool same = true;
		for (long i = 0; i < n && same; ++i)
			same = b[i] == letter(c, i);
		if (same)
			return n ? c : 0;
	}
	return -1;
}

struct World
{
	std::unique_ptr<UdpServer> server;
	std::vector<std::unique_ptr<UdpClient>> clients;
	std::unique_ptr<UdpServer::WithClient> with;
	os::SocketReceive from;
	bool have = false;
	std::vector<int> senders; // ports in the order of arrival

	void reset()
	{
		clients.clear();
		with.reset();
		senders.clear();
		have = false;
		from = os::SocketReceive();
		server.reset();
		unsigned short port = 0;
		for (int i = 0; i < 20; ++i)
		{
			port = freePort(SOCK_DGRAM);
			server.reset(new UdpServer(port));
			if (*server)
				break;
		}
		for (int i = 0; i < CLIENTS; ++i)
			clients.emplace_back(new UdpClient(local(port)));
	}
	std::string finish() { return ""; }
	std::string obs() { return "0"; }
	std::string live() { return "0"; }
	std::string got(Bytes &b, long r, long n)
	{
		if (r < 0 || r > n)
			return num(r < 0 ? -1 : r);
		for (size_t i = r; i < b.size(); ++i)
			if (b[i] != GUARD)
				return str("bytes beyond the message were written");
		return list({ num(r), num(which(b, r)) });
	}
	std::string step(In &in)
	{
		::alarm(20);
		const auto op = in.op();
		if (op == "csend")
		{
			auto &c = *clients[in.num() - 1];
			long content = in.num(), n = in.num();
			const Bytes m = message(content, n);
#ifdef RAW
			long r = UdpClient::callbacks().send(c.native(), range(m));
#else
			long r = c.send(range(m));
			if (r < 0 && (c || c.getStatus() != r))
				return str("a failed send is not reported");
#endif
			if (r >= 0)
				senders.push_back(localPort(c.native().descriptor));
			return num(r < 0 ? -1 : r);
		}
		if (op == "wait")
		{
#ifdef RAW
			have = true;
			long r = UdpServer::callbacks().wait(server->native(), from);
			if (senders.empty() || ntohs(from.address.sin_port) != senders[0]
					|| ntohl(from.address.sin_addr.s_addr) != INADDR_LOOPBACK)
				return str("the sender's address is not reported");
			return num(r);
#else
			with.reset(new UdpServer::WithClient(server->wait()));
			return *with ? num(with->getStatus()) : str("no sender");
#endif
		}
		if (op == "receive")
		{
			long n = in.num();
			Bytes b(static_cast<size_t>(n + 8), GUARD);
			NetworkBase::Range part{ b.data(), b.data() + n };
			if (!ready(server->native().descriptor))
				return str("nothing arrived");
#ifdef RAW
			long r = UdpServer::callbacks().receive(server->native(), part, 0, from);
			if (senders.empty() || ntohs(from.address.sin_port) != senders[0]
					|| ntohl(from.address.sin_addr.s_addr) != INADDR_LOOPBACK)
				return str("the sender's address is not reported");
#else
			long r = with->receive(part);
			if (r != with->getStatus())
				return str("status differs from the result");
#endif
			if (!senders.empty())
				senders.erase(senders.begin());
			return got(b, r, n);
		}
		if (op == "reply")
		{
			long content = in.num(), n = in.num();
			const Bytes m = message(content, n);
#ifdef RAW
			return num(UdpServer::callbacks().send(from, range(m)));
#else
			UdpServer::WithClient copy = *with;
			long r = copy.send(range(m));
			*with = copy;
			return num(r);
#endif
		}
		auto &c = *clients[in.num() - 1];
		if (!ready(c.native().descriptor))
			return str("nothing arrived");
		if (op == "cwait")
		{
#ifdef RAW
			return num(UdpClient::callbacks().wait(c.native()));
#else
			return num(c.wait());
#endif
		}
		if (op == "creceive")
		{
			long n = in.num();
			Bytes b(static_cast<size_t>(n + 8), GUARD);
			NetworkBase::Range part{ b.data(), b.data() + n };
#ifdef RAW
			long r = UdpClient::callbacks().receive(c.native(), part, 0);
#else
			long r = c.receive(part);
#endif
			return got(b, r, n);
		}
		return str("unknown operation " + op);
	}
};

#else

static byte_t letter(int k, int d, unsigned long at) { return byte_t(at * 7 + at / 251 * 3 + at / 65521 + k * 50 + d * 101); }

// room for as many bytes on their way in each direction
static void room(const os::Socket &at)
{
#ifdef ROOM
	const int n = ROOM;
	::setsockopt(at.descriptor, SOL_SOCKET, SO_RCVBUF, &n, sizeof(n));
	::setsockopt(at.descriptor, SOL_SOCKET, SO_SNDBUF, &n, sizeof(n));
#else
	(void)at;
#endif
}

struct World
{
	std::unique_ptr<TcpServer> server;
	unsigned short port = 0;
	struct Side
	{
		std::unique_ptr<TcpClient> client;
		std::unique_ptr<TcpServer::WithClient> with;
		unsigned long sent[2] = {}, taken[2] = {};
	};
	std::vector<Side> sides;

	World()
	{
		for (int i = 0; i < 20; ++i)
		{
			port = freePort(SOCK_STREAM);
			server.reset(new TcpServer(port));
			if (*server)
				break;
		}
		room(server->native());
	}
	void reset()
	{
		sides.clear();
		sides.resize(CONNS);
	}
	std::string finish() { sides.clear(); return ""; }
	std::string live() { return "0"; }

	// the socket that sends into direction d (0 there, 1 back)
	const os::Socket *sender(Side &s, int d)
	{
		if (d == 0)
			return s.client ? &s.client->native() : nullptr;
		return s.with ? &s.with->native() : nullptr;
	}
	std::string obs()
	{
		std::vector<std::string> r;
		for (auto &s : sides)
		{
			std::vector<std::string> x;
			for (int d = 0; d < 2; ++d)
			{
				auto o = sender(s, 1 - d);
				x.push_back(boolean(o && (::fcntl(o->descriptor, F_GETFL) & O_NONBLOCK)));
			}
			r.push_back(list(x));
		}
		return list(r);
	}
	long send(Side &s, int k, int d, long n)
	{
		Bytes m(static_cast<size_t>(n));
		for (long i = 0; i < n; ++i)
			m[i] = letter(k, d, s.sent[d] + i);
		const Bytes &c = m;
#ifdef RAW
		long r = d == 0 ? TcpClient::callbacks().send(*sender(s, d), range(c))
				: TcpServer::callbacks().send(*sender(s, d), range(c));
#else
		long r = d == 0 ? s.client->send(range(c)) : s.with->send(range(c));
		if (r < 0 && (d == 0 ? s.client->getStatus() : s.with->getStatus()) >= 0)
			return -100;
#endif
		if (r > 0)
			s.sent[d] += r;
		return r;
	}
	// -2 when the bytes are not the ones sent
	long receive(Side &s, int k, int d, long n)
	{
		Bytes b(static_cast<size_t>(n + 8), GUARD);
		NetworkBase::Range part{ b.data(), b.data() + n };
#ifdef RAW
		long r = d == 0 ? TcpServer::callbacks().receive(*sender(s, 1), part)
				: TcpClient::callbacks().receive(*sender(s, 0), part);
		if (r < 0)
			r = -1;
#else
		long r = d == 0 ? s.with->receive(part) : s.client->receive(part);
		if (r < 0 && (d == 0 ? s.with->getStatus() : s.client->getStatus()) >= 0)
			return -100;
#endif
		for (long i = 0; i < r; ++i)
			if (b[i] != letter(k, d, s.taken[d] + i))
				return -2;
		for (size_t i = r < 0 ? 0 : r; i < b.size(); ++i)
			if (b[i] != GUARD)
				return -3;
		if (r > 0)
			s.taken[d] += r;
		return r;
	}
	std::string step(In &in)
	{
		::alarm(20);
		const auto op = in.op();
		const int k = int(in.num()) - 1;
		Side &s = sides[k];
		if (op == "connect")
		{
			s = Side();
			s.client.reset(new TcpClient(local(port)));
			room(s.client->native());
			long r = s.client->connect();
			if (r != 0 || !*s.client)
				return num(r ? r : -1);
			s.with.reset(new TcpServer::WithClient(server->accept()));
			if (s.with->getStatus() < 0)
				return num(s.with->getStatus());
			if (ntohs(s.with->native().address.sin_port) != localPort(s.client->native().descriptor))
				return str("the client's address is not reported");
			return "0";
		}
		if (op == "drop")
		{
			s = Side();
			return "0";
		}
		const int d = int(in.num()) - 1;
		if (op == "send")
			return num(send(s, k, d, in.num()));
		if (op == "close")
		{
			if (d == 0)
			{
				s.client->disconnect();
				s.client.reset();
			}
			else
				s.with.reset();
			return "0";
		}
		if (op == "refused")
		{
			for (int i = 0; i < 1000; ++i)
			{
				long r = send(s, k, d, 1);
				if (r < 0)
					return num(r == -100 ? r : -1);
				timespec t = { 0, 1000000 };
				::nanosleep(&t, nullptr);
			}
			return str("never refused");
		}
		const os::Socket &at = *sender(s, 1 - d); // receiver's
		if (op == "mode")
		{
			bool quiet = in.num() != 0;
			int f = ::fcntl(at.descriptor, F_GETFL);
			::fcntl(at.descriptor, F_SETFL, quiet ? f | O_NONBLOCK : f & ~O_NONBLOCK);
			return "0";
		}
		if (op == "flood")
		{
			// the receiver takes what has arrived whenever the sender is stuck
			long left = 3000000 + k * 1111 + d, in = 0;
			long all = left;
			while (in < all)
			{
				if (left > 0)
				{
					long r = send(s, k, d, left);
					if (r < -1 && r != -EAGAIN)
						return num(r);
					if (r > left)
						return str("more sent than given");
					if (r > 0)
						left -= r;
				}
				if (!ready(at.descriptor))
					return str("bytes lost");
				long r = receive(s, k, d, 100000);
				if (r <= 0)
					return num(r);
				in += r;
			}
			int have = 0;
			::ioctl(at.descriptor, FIONREAD, &have);
			return boolean(in == all && have == 0);
		}
		const long n = op == "receive" || op == "waitBytes" ? in.num() : 0;
		const long have = in.num();
		const bool closed = in.num() != 0;
		if (op != "waitBytes" && (have > 0 ? !arrived(at.descriptor, have) : closed && !ready(at.descriptor)))
			return str("nothing arrived");
		if (op == "receive")
			return num(receive(s, k, d, n));
		if (op == "number")
			return num(d == 0 ? s.with->numberBytesToRead() : s.client->numberBytesToRead());
		if (op == "alive")
			return boolean(d == 0 ? TcpServer::callbacks().alive(at) : TcpClient::callbacks().alive(at));
		if (op == "waitBytes")
		{
			long r = d == 0 ? TcpServer::callbacks().waitBytes(at, n) : TcpClient::callbacks().waitBytes(at, n);
			if (r < n || r > have)
				return num(r);
			return arrived(at.descriptor, have) ? num(have) : str("bytes lost");
		}
		return str("unknown operation " + op);
	}
};

#endif

int main()
{
	// one processor: the loopback device delivers in the order of sending
	cpu_set_t set;
	CPU_ZERO(&set);
	CPU_SET(::sched_getcpu(), &set);
	::sched_setaffinity(0, sizeof set, &set);
	descriptorsFromFirst();
	World world;
	return drive(world);
}
