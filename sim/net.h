// Simulated descriptors: sockets, epoll, eventfd, timerfd, pipes.
#pragma once
#include <stdint.h>
#include <deque>
#include <set>
#include <string>
#include <vector>
#include <map>

namespace sim {
enum FdKind { FD_NONE, FD_TCP, FD_UDP, FD_EPOLL, FD_EVENT, FD_TIMER, FD_FILE, FD_PIPE };
struct Epoll;
struct Vfd {
    FdKind kind = FD_NONE;
    int fd = -1;
    int node = -1;
    bool nonblock = false;
    std::vector<Epoll *> pollers;
    uint64_t id = 0;
    virtual ~Vfd() {}
    virtual uint32_t ready() { return 0; }
};
Vfd *vfd(int fd);
int vfd_new(Vfd *v, FdKind k, int node);     // reserves a real descriptor number
void vfd_notify(Vfd *v);
int vfd_close(int fd);
void vfd_forget(int fd);                     // drops the table entry without closing

struct Addr { uint32_t ip = 0; uint16_t port = 0; bool operator<(const Addr &o) const { return ip != o.ip ? ip < o.ip : port < o.port; } };

// hosts: node k is 10.0.0.(k+1), harness client c is 10.0.1.c
inline uint32_t node_ip(int k) { return 0x0a000000u + k + 1; }
inline uint32_t client_ip(int c) { return 0x0a000100u + c; }

struct NetCfg {
    int64_t lat_min = 50000, lat_jitter = 0;   // ns
    uint32_t seg_ppm = 0;          // chance that a delivery is cut short
    uint32_t short_send_ppm = 0;   // chance that send() takes only a part
    uint32_t short_recv_ppm = 0;
    size_t sndcap = 256 << 10, rcvcap = 128 << 10;
    uint32_t udp_loss_ppm = 0, udp_dup_ppm = 0, udp_reorder_ppm = 0;
    uint32_t accept_err_ppm = 0;
    int64_t connect_timeout = 20000000000LL;
};
extern NetCfg net;

// harness client API (blocking, in simulated time); -1 / false on failure
int c_connect(uint32_t from_ip, uint32_t ip, uint16_t port, int64_t timeout_ns);
bool c_send(int fd, const std::string &data, int64_t timeout_ns);             // in random segments
int c_recv(int fd, std::string &out, int64_t timeout_ns, size_t max = 65536); // >0 bytes, 0 eof, -1 error, -2 timeout
void c_close(int fd);
void c_reset(int fd);
void c_shut_wr(int fd);
int c_listen(uint32_t ip, uint16_t port);
int c_accept(int lfd, int64_t timeout_ns);
void c_udp(uint32_t from_ip, uint32_t ip, uint16_t port, const std::string &data);
size_t c_unsent(int fd);
std::string c_local(int fd);         // ip:port
uint32_t c_peer_ip(int fd);
// host-level faults
void net_partition(uint32_t a, uint32_t b, bool on);
bool net_partitioned(uint32_t a, uint32_t b);
int net_reset_between(uint32_t a, uint32_t b);     // resets every connection between two hosts
int64_t net_inflight(uint32_t from, uint32_t to);  // bytes sent and not yet read
int net_conns(int node, uint16_t local_port);      // open connections of a node on a local port
void net_refuse(int node, uint16_t port, bool on);
int64_t net_udp_dropped();
std::string ipstr(uint32_t ip);
}
