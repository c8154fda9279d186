// Storage and socket seams: the libc calls that libstdc++ streams and the code
// under test use, with seeded faults. Files are real files in the private
// scratch directory of the run; every call on them passes through here.
#include "internal.h"

#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <stdarg.h>
#include <stdio.h>
#include <string.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/un.h>
#include <unistd.h>

#include <algorithm>
#include "simio.h"

using namespace sim;
using namespace sim::internal;

namespace {
template <class F>
F Real(const char* name) {
  Core core;
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
constexpr int kFds = 1024;
enum FdKind : char { kNone = 0, kFile, kSocket };
char g_fd[kFds];
bool g_disk_full = false;
uint64_t g_write_close_errors = 0;

// --- simulated stream socket: one peer per connection
std::string* g_peer_data = nullptr;   // bytes that the peer will send
size_t g_peer_pos = 0;
std::string* g_peer_got = nullptr;    // bytes that the code sent
int g_open_sockets = 0;
std::string* g_peer_path = nullptr;
bool g_peer_closed = false;

bool IsFile(int fd) { return fd >= 0 && fd < kFds && g_fd[fd] == kFile; }
bool IsSock(int fd) { return fd >= 0 && fd < kFds && g_fd[fd] == kSocket; }
bool Writable(int fd) { return (fcntl(fd, F_GETFL) & O_ACCMODE) != O_RDONLY; }
void Track(int fd, FdKind k) {
  if (fd >= 0 && fd < kFds) g_fd[fd] = k;
}
int OpenFault() {
  uint64_t a;
  if (ShouldFault(kOpenFail, &a)) {
    static const int e[] = {EMFILE, EACCES, EIO, ENOSPC};
    return e[a % 4];
  }
  return 0;
}
void MaybeCrash(int fd, const void* buf, size_t n, bool write_op) {
  uint64_t a;
  if (!Crashable() || !ShouldFault(kCrash, &a)) return;
  if (write_op && n) {
    // A prefix of the data reaches the disk (torn write).
    const size_t k = a % (n + 1);
    if (k) {
      ssize_t r = ::syscall(SYS_write, fd, buf, k);
      (void)r;
    }
  }
  CrashNow();
}
}  // namespace

namespace simio {
void SetPeerStream(const std::string& path, const std::string& bytes) {
  Core core;
  if (!g_peer_data) {
    g_peer_data = new std::string();
    g_peer_got = new std::string();
    g_peer_path = new std::string();
  }
  *g_peer_data = bytes;
  *g_peer_path = path;
  g_peer_pos = 0;
  g_peer_got->clear();
  g_peer_closed = false;
}
std::string PeerReceived() {
  Core core;
  return g_peer_got ? *g_peer_got : std::string();
}
size_t PeerConsumed() { return g_peer_pos; }
int OpenSockets() { return g_open_sockets; }
void ClearDiskFull() { g_disk_full = false; }
uint64_t WriteCloseErrors() { return g_write_close_errors; }
int OpenFiles() {
  int n = 0;
  for (int i = 0; i < kFds; ++i) n += g_fd[i] == kFile;
  return n;
}
}  // namespace simio

extern "C" {

int open(const char* path, int flags, ...) {
  static auto real = Real<int (*)(const char*, int, ...)>("open");
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  if (!Seam()) return real(path, flags, mode);
  SyncPoint();
  if (int e = OpenFault()) {
    errno = e;
    return -1;
  }
  MaybeCrash(-1, nullptr, 0, false);
  int fd;
  {
    Core core;
    fd = real(path, flags, mode);
  }
  Track(fd, kFile);
  return fd;
}
int open64(const char* path, int flags, ...) {
  mode_t mode = 0;
  if (flags & (O_CREAT | O_TMPFILE)) {
    va_list ap;
    va_start(ap, flags);
    mode = va_arg(ap, mode_t);
    va_end(ap);
  }
  return open(path, flags, mode);
}

static FILE* FopenImpl(const char* path, const char* mode) {
  static auto real = Real<FILE* (*)(const char*, const char*)>("fopen");
  if (!Seam()) return real(path, mode);
  SyncPoint();
  if (int e = OpenFault()) {
    errno = e;
    return nullptr;
  }
  MaybeCrash(-1, nullptr, 0, false);
  FILE* f;
  {
    Core core;
    f = real(path, mode);
  }
  if (f) Track(fileno(f), kFile);
  return f;
}
FILE* fopen(const char* path, const char* mode) { return FopenImpl(path, mode); }
FILE* fopen64(const char* path, const char* mode) { return FopenImpl(path, mode); }

int fclose(FILE* f) {
  static auto real = Real<int (*)(FILE*)>("fclose");
  const int fd = f ? fileno(f) : -1;
  if (!Seam() || !IsFile(fd)) {
    if (IsFile(fd)) g_fd[fd] = kNone;
    return real(f);
  }
  SyncPoint();
  MaybeCrash(-1, nullptr, 0, false);
  const bool bad = ShouldFault(kCloseError);
  if (bad && Writable(fd)) ++g_write_close_errors;
  g_fd[fd] = kNone;
  int r;
  {
    Core core;
    r = real(f);
  }
  if (bad) {
    errno = EIO;
    return EOF;
  }
  return r;
}
int close(int fd) {
  static auto real = Real<int (*)(int)>("close");
  if (IsSock(fd)) {
    g_fd[fd] = kNone;
    --g_open_sockets;
    return real(fd);
  }
  if (!Seam() || !IsFile(fd)) {
    if (IsFile(fd)) g_fd[fd] = kNone;
    return real(fd);
  }
  SyncPoint();
  const bool bad = ShouldFault(kCloseError);
  if (bad && Writable(fd)) ++g_write_close_errors;
  g_fd[fd] = kNone;
  int r;
  {
    Core core;
    r = real(fd);
  }
  if (bad) {
    errno = EIO;
    return -1;
  }
  return r;
}

ssize_t read(int fd, void* buf, size_t n) {
  static auto real = Real<ssize_t (*)(int, void*, size_t)>("read");
  if (Seam() && IsSock(fd)) return recv(fd, buf, n, 0);
  if (!Seam() || !IsFile(fd)) return real(fd, buf, n);
  SyncPoint();
  if (ShouldFault(kReadEintr)) {
    errno = EINTR;
    return -1;
  }
  if (ShouldFault(kReadError)) {
    errno = EIO;
    return -1;
  }
  uint64_t a;
  if (n > 1 && ShouldFault(kReadShort, &a)) n = 1 + a % (n - 1);
  ssize_t r;
  {
    Core core;
    r = real(fd, buf, n);
  }
  if (r > 0 && ShouldFault(kBitFlip, &a))
    static_cast<char*>(buf)[(a >> 3) % r] ^= static_cast<char>(1 << (a & 7));
  return r;
}

static ssize_t WriteImpl(int fd, const void* buf, size_t n) {
  SyncPoint();
  if (ShouldFault(kWriteEintr)) {
    errno = EINTR;
    return -1;
  }
  MaybeCrash(fd, buf, n, true);
  if (g_disk_full) {
    errno = ENOSPC;
    return -1;
  }
  uint64_t a;
  if (ShouldFault(kWriteNoSpace, &a)) {
    // The disk fills up half-way through this write and stays full.
    g_disk_full = true;
    const size_t k = n ? a % n : 0;
    if (k) return ::syscall(SYS_write, fd, buf, k);
    errno = ENOSPC;
    return -1;
  }
  if (ShouldFault(kWriteError)) {
    errno = EIO;
    return -1;
  }
  if (n > 1 && ShouldFault(kWriteShort, &a)) n = 1 + a % (n - 1);
  return ::syscall(SYS_write, fd, buf, n);
}

ssize_t write(int fd, const void* buf, size_t n) {
  static auto real = Real<ssize_t (*)(int, const void*, size_t)>("write");
  if (Seam() && IsSock(fd)) return send(fd, buf, n, 0);
  if (!Seam() || !IsFile(fd)) return real(fd, buf, n);
  return WriteImpl(fd, buf, n);
}
ssize_t writev(int fd, const struct iovec* v, int cnt) {
  static auto real = Real<ssize_t (*)(int, const struct iovec*, int)>("writev");
  if (!Seam() || !IsFile(fd)) return real(fd, v, cnt);
  std::string all;
  {
    Core core;
    for (int i = 0; i < cnt; ++i)
      all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
  }
  const ssize_t r = WriteImpl(fd, all.data(), all.size());
  {
    Core core;
    std::string().swap(all);
  }
  return r;
}
static off_t SeekImpl(int fd, off_t off, int wh) {
  if (Seam() && IsFile(fd)) {
    SyncPoint();
    // Asking for the position cannot fail; moving it can (network storage).
    if (!(wh == SEEK_CUR && off == 0) && ShouldFault(kSeekError)) {
      errno = EIO;
      return -1;
    }
  }
  return ::syscall(SYS_lseek, fd, off, wh);
}
off_t lseek(int fd, off_t off, int wh) noexcept { return SeekImpl(fd, off, wh); }
off64_t lseek64(int fd, off64_t off, int wh) noexcept { return SeekImpl(fd, off, wh); }

// ---------------------------------------------------------------- sockets
int socket(int domain, int type, int proto) noexcept {
  static auto real = Real<int (*)(int, int, int)>("socket");
  if (!Seam()) return real(domain, type, proto);
  uint64_t a;
  if (ShouldFault(kOpenFail, &a)) {
    errno = EMFILE;
    return -1;
  }
  Core core;
  const int fd = ::open("/dev/null", O_RDWR);
  Track(fd, kSocket);
  ++g_open_sockets;
  return fd;
}
int connect(int fd, const struct sockaddr* sa, socklen_t n) {
  static auto real =
      Real<int (*)(int, const struct sockaddr*, socklen_t)>("connect");
  if (!IsSock(fd)) return real(fd, sa, n);
  SyncPoint();
  if (ShouldFault(kConnectFail)) {
    errno = ECONNREFUSED;
    return -1;
  }
  std::string path;
  if (sa->sa_family == AF_UNIX)
    path = reinterpret_cast<const struct sockaddr_un*>(sa)->sun_path;
  if (g_peer_path && path != *g_peer_path) {
    errno = ENOENT;
    return -1;
  }
  return 0;
}
ssize_t recv(int fd, void* buf, size_t n, int flags) {
  static auto real = Real<ssize_t (*)(int, void*, size_t, int)>("recv");
  if (!IsSock(fd)) return real(fd, buf, n, flags);
  for (;;) {
    SyncPoint();
    if (ShouldFault(kRecvEintr)) {
      errno = EINTR;
      return -1;
    }
    if (ShouldFault(kRecvError)) {
      g_peer_closed = true;
      errno = ECONNRESET;
      return -1;
    }
    if (ShouldFault(kPeerClose)) g_peer_closed = true;
    const size_t have =
        g_peer_closed || !g_peer_data ? 0 : g_peer_data->size() - g_peer_pos;
    if (have == 0 || n == 0) return 0;
    // MSG_WAITALL may still return fewer bytes (signal, disconnect), but for
    // a quiet peer it returns everything asked for.
    size_t k = std::min(n, have);
    uint64_t a;
    if (k > 1 && ShouldFault(kRecvShort, &a)) k = 1 + a % (k - 1);
    if (!(flags & MSG_PEEK)) {
      memcpy(buf, g_peer_data->data() + g_peer_pos, k);
      g_peer_pos += k;
    } else {
      memcpy(buf, g_peer_data->data() + g_peer_pos, k);
    }
    return static_cast<ssize_t>(k);
  }
}
ssize_t send(int fd, const void* buf, size_t n, int flags) {
  static auto real = Real<ssize_t (*)(int, const void*, size_t, int)>("send");
  if (!IsSock(fd)) return real(fd, buf, n, flags);
  Core core;
  if (g_peer_got) g_peer_got->append(static_cast<const char*>(buf), n);
  return static_cast<ssize_t>(n);
}
int shutdown(int fd, int how) noexcept {
  static auto real = Real<int (*)(int, int)>("shutdown");
  if (!IsSock(fd)) return real(fd, how);
  return 0;
}
}
