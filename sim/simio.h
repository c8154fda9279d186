#ifndef VERIF_SIMIO_H
#define VERIF_SIMIO_H
#include <cstddef>
#include <cstdint>
#include <string>
namespace simio {
/// The peer of the next connect() to `path` sends these bytes and closes.
void SetPeerStream(const std::string& path, const std::string& bytes);
std::string PeerReceived();
size_t PeerConsumed();
int OpenSockets();
int OpenFiles();
/// Close errors so far of files that were open for writing.
uint64_t WriteCloseErrors();
void ClearDiskFull();
}  // namespace simio
#endif
