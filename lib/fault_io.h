// Interposes read(2)/readv/write/writev/open so that a harness decides the environment's answers.
// Include in exactly one TU of a binary built without sanitizers.
#ifndef VERIF_FAULT_IO_H_
#define VERIF_FAULT_IO_H_
#include <dlfcn.h>
#include <errno.h>
#include <sys/stat.h>
#include <sys/uio.h>
#include <unistd.h>

#include <cstdarg>
#include <cstdio>
#include <fcntl.h>
#include <functional>
#include <string>

namespace fault {
// answer(kind, fd, requested) -> -1: do it for real; >= 0: transfer at most that many bytes; < -1: fail with errno -(v).
inline std::function<long(char kind, int fd, size_t n)> g_answer;
inline bool IsScratch(int fd, const std::string& scratch) {
  char link[64], path[4096];
  std::snprintf(link, sizeof(link), "/proc/self/fd/%d", fd);
  const ssize_t n = ::readlink(link, path, sizeof(path) - 1);
  return n > 0 && std::string_view(path, n).starts_with(scratch);
}
template <typename F>
F Next(const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
inline bool Active() { return static_cast<bool>(g_answer); }
}  // namespace fault

extern "C" {
ssize_t read(int fd, void* buf, size_t n) {
  static auto real = fault::Next<ssize_t (*)(int, void*, size_t)>("read");
  if (fault::Active() && n > 0) {
    const long a = fault::g_answer('r', fd, n);
    if (a < -1) {
      errno = static_cast<int>(-a);
      return -1;
    }
    if (a >= 0 && static_cast<size_t>(a) < n) n = a;
  }
  return real(fd, buf, n);
}
ssize_t readv(int fd, const struct iovec* iov, int cnt) {
  // transfers through the first non-empty vector only: a legal short read
  for (int i = 0; i < cnt; ++i)
    if (iov[i].iov_len) return read(fd, iov[i].iov_base, iov[i].iov_len);
  return 0;
}
ssize_t write(int fd, const void* buf, size_t n) {
  static auto real = fault::Next<ssize_t (*)(int, const void*, size_t)>("write");
  if (fault::Active() && n > 0) {
    const long a = fault::g_answer('w', fd, n);
    if (a < -1) {
      errno = static_cast<int>(-a);
      return -1;
    }
    if (a >= 0 && static_cast<size_t>(a) < n) n = a;
  }
  return real(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* iov, int cnt) {
  static auto real = fault::Next<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (fault::Active()) {
    for (int i = 0; i < cnt; ++i)
      if (iov[i].iov_len) return write(fd, iov[i].iov_base, iov[i].iov_len);
    return 0;
  }
  return real(fd, iov, cnt);
}
}
#endif
