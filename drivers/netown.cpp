// Replays Descriptors.tla behaviours on the network objects.  System calls
// are replaced (-Wl,--wrap) by a table of descriptors that hands out the
// lowest free number, like the kernel does, and records every use of a number
// that is not open.  -DKINDS lists the kinds of the places, -DFIRST is the
// first number that does not belong to somebody else.
#include <FlameIDE/Os/Network/TcpClient.hpp>
#include <FlameIDE/Os/Network/TcpServer.hpp>
#include <FlameIDE/Os/Network/UdpClient.hpp>
#include <FlameIDE/Os/Network/UdpServer.hpp>
#include <FlameIDE/Os/Constants.hpp>
#include <fcntl.h>
#include <sys/ioctl.h>
#include <sys/poll.h>
#include <sys/select.h>
#include <sys/uio.h>
#include <unistd.h>
#include <cerrno>
#include <map>
#include <memory>
#include "vf.hpp"

using namespace vf;
using namespace flame_ide;
using namespace flame_ide::os::network;

// ------------------------------------------------------------------- kernel

struct Kernel
{
	std::map<int, int> open; // number -> label, 0 while it has none
	long strays = 0;
	std::string fails;       // call that fails next
	uint32_t address = 0;    // last connected
	uint16_t port = 0;

	void reset() { *this = Kernel(); }
	bool failing(const char *call, int error)
	{
		if (fails != call)
			return false;
		fails.clear();
		errno = error;
		return true;
	}
	int fresh()
	{
		int n = FIRST;
		while (open.count(n))
			++n;
		open[n] = 0;
		return n;
	}
	bool known(int fd)
	{
		if (open.count(fd))
			return true;
		if (fd >= 0)
			++strays; // somebody else's or nobody's
		errno = EBADF;
		return false;
	}
	void label()
	{
		for (auto &x : open)
			if (!x.second)
			{
				int l = 1;
				for (bool again = true; again;)
				{
					again = false;
					for (auto &y : open)
						if (y.second == l)
						{
							++l;
							again = true;
						}
				}
				x.second = l;
			}
	}
};
static Kernel kernel;

extern "C"
{
int __wrap_socket(int, int, int) { return kernel.failing("socket", EMFILE) ? -1 : kernel.fresh(); }
int __wrap_setsockopt(int fd, int, int, const void *, socklen_t)
{ return !kernel.known(fd) || kernel.failing("setsockopt", ENOPROTOOPT) ? -1 : 0; }
int __wrap_bind(int fd, const struct sockaddr *, socklen_t) { return !kernel.known(fd) || kernel.failing("bind", EADDRINUSE) ? -1 : 0; }
int __wrap_listen(int fd, int) { return !kernel.known(fd) || kernel.failing("listen", EADDRINUSE) ? -1 : 0; }
int __wrap_accept(int fd, struct sockaddr *, socklen_t *)
{ return !kernel.known(fd) || kernel.failing("accept", ECONNABORTED) ? -1 : kernel.fresh(); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return __wrap_accept(fd, a, l); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t)
{
	if (!kernel.known(fd) || kernel.failing("connect", ECONNREFUSED))
		return -1;
	auto in = reinterpret_cast<const sockaddr_in *>(a);
	kernel.address = ntohl(in->sin_addr.s_addr);
	kernel.port = ntohs(in->sin_port);
	return 0;
}
int __wrap_close(int fd)
{
	if (!kernel.known(fd))
		return -1;
	kernel.open.erase(fd); // released even if an error is reported
	return kernel.failing("close", EIO) ? -1 : 0;
}
int __wrap_shutdown(int fd, int) { return kernel.known(fd) ? 0 : -1; }
ssize_t __wrap_send(int fd, const void *, size_t n, int) { return kernel.known(fd) ? ssize_t(n) : -1; }
ssize_t __wrap_sendto(int fd, const void *, size_t n, int, const struct sockaddr *, socklen_t) { return kernel.known(fd) ? ssize_t(n) : -1; }
ssize_t __wrap_sendmsg(int fd, const struct msghdr *, int) { return kernel.known(fd) ? 1 : -1; }
ssize_t __wrap_recv(int fd, void *, size_t, int) { return kernel.known(fd) ? 0 : -1; }
ssize_t __wrap_recvfrom(int fd, void *, size_t, int, struct sockaddr *, socklen_t *) { return kernel.known(fd) ? 0 : -1; }
ssize_t __wrap_recvmsg(int fd, struct msghdr *, int) { return kernel.known(fd) ? 0 : -1; }
int __wrap_getsockopt(int fd, int, int, void *v, socklen_t *l)
{
	if (!kernel.known(fd))
		return -1;
	memset(v, 0, *l);
	return 0;
}
int __wrap_ioctl(int fd, unsigned long, ...) { return kernel.known(fd) ? 0 : -1; }
int __wrap_fcntl(int fd, int, ...) { return kernel.known(fd) ? 0 : -1; }
int __wrap_fcntl64(int fd, int, ...) { return kernel.known(fd) ? 0 : -1; }
}

// ------------------------------------------------------------------ objects

static const int kinds[] = { 0, KINDS };
enum { N = sizeof(kinds) / sizeof(*kinds) - 1 };
static const os::network::Ipv4 PEER("127.0.0.1", 4000);

struct Place
{
	std::unique_ptr<UdpServer> us;
	std::unique_ptr<UdpClient> uc;
	std::unique_ptr<TcpServer> ts;
	std::unique_ptr<TcpClient> tc;
	std::unique_ptr<TcpServer::WithClient> ac;
};

struct World
{
	Place v[N + 1];

	void reset()
	{
		for (int i = 1; i <= N; ++i)
			v[i] = Place();
		kernel.reset();
	}
	std::string finish()
	{
		for (int i = 1; i <= N; ++i)
			v[i] = Place();
		const bool left = !kernel.open.empty(), stray = kernel.strays != 0;
		kernel.reset();
		return left ? "descriptors are left open" : stray ? "a foreign descriptor was used" : "";
	}

	template<typename T>
	static std::string created(std::unique_ptr<T> &p, T *n)
	{
		p.reset(n);
		return result(*n, n->getStatus() < 0);
	}
	template<typename T>
	static std::string result(T &n, bool error)
	{
		if (static_cast<bool>(n) == error)
			return str("validity and status disagree");
		return error ? "false" : "true";
	}
	template<typename T>
	static void moved(std::unique_ptr<T> &to, std::unique_ptr<T> &from, bool assign)
	{
		if (assign)
			*to = move(*from);
		else
			to.reset(new T(move(*from)));
	}

	std::string step(In &in)
	{
		const std::string op = in.op();
		const int i = int(in.num());
		Place &p = v[i];
		std::string r = "0";
		if (op == "create")
		{
			kernel.fails = in.word();
			switch (kinds[i])
			{
				case 1: r = created(p.us, new UdpServer(4000)); break;
				case 2: r = created(p.uc, new UdpClient(PEER)); break;
				case 3: r = created(p.ts, new TcpServer(4000)); break;
				case 4: r = created(p.tc, new TcpClient(PEER)); break;
			}
		}
		else if (op == "accept")
		{
			const int j = int(in.num());
			kernel.fails = in.word();
			p.ac.reset(new TcpServer::WithClient(v[j].ts->accept()));
			r = p.ac->getStatus() < 0 ? "false" : "true";
		}
		else if (op == "moveCtor" || op == "moveAssign" || op == "selfMove")
		{
			const bool assign = op != "moveCtor";
			Place &q = op == "selfMove" ? p : v[in.num()];
			switch (kinds[i])
			{
				case 1: moved(p.us, q.us, assign); break;
				case 2: moved(p.uc, q.uc, assign); break;
				case 3: moved(p.ts, q.ts, assign); break;
				case 4: moved(p.tc, q.tc, assign); break;
				case 5: moved(p.ac, q.ac, assign); break;
			}
		}
		else if (op == "destroy")
		{
			kernel.fails = in.word();
			p = Place();
		}
		else if (op == "connect" || op == "reconnect")
		{
			kernel.fails = in.word();
			kernel.address = 0;
			const auto status = op == "connect" ? p.tc->connect() : p.tc->reconnect();
			r = status < 0 ? "false" : "true";
			if (status != p.tc->getStatus())
				r = str("status differs from the result");
			else if (status >= 0 && (kernel.address != 0x7f000001 || kernel.port != 4000))
				r = str("connected to another address");
		}
		else if (op == "disconnect")
		{
			kernel.fails = in.word();
			r = p.tc->disconnect() < 0 ? "false" : "true";
		}
		else if (op == "use")
		{
			byte_t b[4] = {};
			const auto c = templates::makeRange(static_cast<const byte_t *>(b), static_cast<const byte_t *>(b + 4));
			const auto m = templates::makeRange(b + 0, b + 4);
			bool ok[3] = {};
			switch (kinds[i])
			{
				case 1:
					ok[0] = ok[1] = ok[2] = static_cast<bool>(p.us->wait());
					break;
				case 2:
				{
					// the status of a client without descriptor may change: it stays invalid
					ok[0] = p.uc->send(c) >= 0;
					ok[1] = p.uc->receive(m) >= 0;
					ok[2] = p.uc->wait() >= 0;
					break;
				}
				case 4:
					ok[0] = p.tc->send(c) >= 0;
					ok[1] = p.tc->receive(m) >= 0;
					ok[2] = p.tc->numberBytesToRead() >= 0;
					break;
				case 5:
					ok[0] = p.ac->send(c) >= 0;
					ok[1] = p.ac->receive(m) >= 0;
					ok[2] = p.ac->numberBytesToRead() >= 0;
					break;
			}
			r = ok[0] != ok[1] || ok[1] != ok[2] ? str("some uses fail") : ok[0] ? "true" : "false";
		}
		else
			return str("unknown operation " + op);
		if (!kernel.fails.empty())
			r = str(kernel.fails + " was not called");
		kernel.fails.clear();
		return r;
	}

	std::string show(int i)
	{
		bool here = false, valid = false;
		os::SocketDescriptor fd = -1;
		auto look = [&](const NetworkBase &b)
		{
			here = true;
			valid = static_cast<bool>(b);
			fd = b.native().descriptor;
		};
		Place &p = v[i];
		if (p.us) look(*p.us);
		if (p.uc) look(*p.uc);
		if (p.ts) look(*p.ts);
		if (p.tc) look(*p.tc);
		if (p.ac)
		{
			here = true;
			fd = p.ac->native().descriptor;
			valid = fd != os::SOCKET_INVALID.descriptor && p.ac->getStatus() >= 0;
		}
		if (!here)
			return "0";
		if (fd == os::SOCKET_INVALID.descriptor)
			return valid ? str("valid without descriptor") : "-1";
		if (!kernel.open.count(fd))
			return str("refers to a descriptor that is not open");
		return num(kernel.open[fd] + (valid ? 0 : 100));
	}
	std::string obs()
	{
		kernel.label();
		std::vector<std::string> r;
		for (int i = 1; i <= N; ++i)
			r.push_back(show(i));
		return "{\"n\":" + num(long(kernel.open.size())) + ",\"stray\":" + num(kernel.strays) + ",\"v\":" + list(r) + "}";
	}
	std::string live() { return "0"; }
};

int main()
{
	World w;
	return drive(w);
}
