// -DFIRST: the descriptors opened from here on are at least that large, where
// the system allows so many.
#pragma once
#include <fcntl.h>
#include <sys/resource.h>
#include <unistd.h>

static int firstDescriptor = 3; // nothing below is the driver's to close

static void descriptorsFromFirst()
{
#ifdef FIRST
	rlimit r;
	if (::getrlimit(RLIMIT_NOFILE, &r) != 0 || r.rlim_max < FIRST + 1100)
		return;
	if (r.rlim_cur < FIRST + 1100)
	{
		r.rlim_cur = FIRST + 1100;
		if (::setrlimit(RLIMIT_NOFILE, &r) != 0)
			return;
	}
	for (int n = 0; n >= 0 && n < FIRST - 1;)
		n = ::open("/dev/null", O_RDONLY);
	firstDescriptor = FIRST;
#endif
}
