/*
 * TLS-PSK peers for the harness (used through ctypes): scripted clients and
 * scripted servers whose TLS records, TCP segments and pauses are under the
 * control of the caller.  The SSL object works on memory BIOs; the socket I/O
 * is ours.  Nothing in here comes from the code under test.
 */
#define _GNU_SOURCE
#include <sys/socket.h>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <openssl/err.h>
#include <openssl/ssl.h>
#include <poll.h>
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <unistd.h>

#define OK 1
#define R_CLOSED 0     /* close_notify received */
#define R_TIMEOUT -1
#define R_RESET -2     /* ECONNRESET, EPIPE etc. */
#define R_EOF -3       /* TCP EOF without close_notify */
#define R_TLS -4       /* TLS error (alert, bad MAC ...) */

typedef struct {
	SSL_CTX *ctx;
	SSL *ssl;
	BIO *in, *out;
	int fd;
	char identity[512];     /* client: what to send; server: what was offered */
	unsigned char psk[1024];
	unsigned psk_len;
	size_t frag;            /* maximum size of a TCP write, 0 = unlimited */
	unsigned frag_us;       /* pause between TCP writes */
	int eof, reset;
	char err[256];
	int (*lookup)(const char *, unsigned char *, unsigned);
	/* server: table of identities */
	char ids[16][256];
	unsigned char keys[16][1024];
	unsigned key_lens[16];
	int n_ids;
	int session_reused;
	size_t n_in;
	size_t max_in;          /* maximum size of a TCP read, 0 = unlimited */
} peer;

static double now(void)
{
	struct timespec ts;
	clock_gettime(CLOCK_MONOTONIC, &ts);
	return ts.tv_sec + ts.tv_nsec / 1e9;
}

static unsigned client_cb(SSL *ssl, const char *hint, char *id, unsigned max_id,
    unsigned char *psk, unsigned max_psk)
{
	peer *p = SSL_get_app_data(ssl);
	(void)hint;
	if (strlen(p->identity) + 1 > max_id || p->psk_len > max_psk)
		return 0;
	strcpy(id, p->identity);
	memcpy(psk, p->psk, p->psk_len);
	return p->psk_len;
}

static unsigned server_cb(SSL *ssl, const char *id, unsigned char *psk, unsigned max_psk)
{
	peer *p = SSL_get_app_data(ssl);
	int i;
	snprintf(p->identity, sizeof(p->identity), "%s", id ? id : "");
	for (i = 0; i < p->n_ids; i++)
		if (strcmp(p->ids[i], p->identity) == 0 || strcmp(p->ids[i], "*") == 0) {
			if (p->key_lens[i] > max_psk)
				return 0;
			memcpy(psk, p->keys[i], p->key_lens[i]);
			return p->key_lens[i];
		}
	return 0;
}

static void set_err(peer *p, const char *what)
{
	unsigned long e = ERR_peek_last_error();
	snprintf(p->err, sizeof(p->err), "%s: %s", what,
	    e ? ERR_reason_error_string(e) : strerror(errno));
	ERR_clear_error();
}

static int wait_fd(int fd, short ev, double deadline)
{
	for (;;) {
		struct pollfd pf = { fd, ev, 0 };
		double left = deadline - now();
		int n = poll(&pf, 1, left > 0 ? (int)(left * 1000) + 1 : 0);
		if (n > 0)
			return 1;
		if (n == 0) {
			if (now() >= deadline)
				return 0;
			continue;
		}
		if (errno != EINTR)
			return -1;
	}
}

/* Write bytes to the socket, honouring the fragmentation. */
int peer_raw_write(peer *p, const unsigned char *b, size_t n, int timeout_ms)
{
	double deadline = now() + timeout_ms / 1000.0;
	size_t off = 0;
	while (off < n) {
		size_t k = n - off;
		ssize_t w;
		if (p->frag && k > p->frag)
			k = p->frag;
		w = send(p->fd, b + off, k, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (w > 0) {
			off += (size_t)w;
			if (p->frag && off < n && p->frag_us)
				usleep(p->frag_us);
			continue;
		}
		if (errno == EAGAIN) {
			if (wait_fd(p->fd, POLLOUT, deadline) != 1)
				return R_TIMEOUT;
		} else if (errno != EINTR) {
			p->reset = 1;
			return R_RESET;
		}
	}
	return OK;
}

static int flush_out(peer *p, int timeout_ms)
{
	char *b;
	long n = BIO_get_mem_data(p->out, &b);
	int r = OK;
	if (n > 0) {
		char *copy = malloc((size_t)n);
		memcpy(copy, b, (size_t)n);
		(void)BIO_reset(p->out);
		r = peer_raw_write(p, (unsigned char *)copy, (size_t)n, timeout_ms);
		free(copy);
	}
	return r;
}

/* Fetch some bytes from the socket into the input BIO. */
static int fill_in(peer *p, double deadline)
{
	unsigned char b[65536];
	ssize_t n;
	if (p->eof)
		return R_EOF;
	for (;;) {
		int one = 1;

		/* Don't make the other side's Nagle algorithm wait for our ACK. */
		setsockopt(p->fd, IPPROTO_TCP, TCP_QUICKACK, &one, sizeof(one));
		n = recv(p->fd, b, p->max_in && p->max_in < sizeof(b) ? p->max_in : sizeof(b), MSG_DONTWAIT);
		if (n > 0) {
			p->n_in += (size_t)n;
			BIO_write(p->in, b, (int)n);
			return OK;
		}
		if (n == 0) {
			p->eof = 1;
			return R_EOF;
		}
		if (errno == EAGAIN) {
			if (wait_fd(p->fd, POLLIN, deadline) != 1)
				return R_TIMEOUT;
		} else if (errno != EINTR) {
			p->reset = 1;
			return R_RESET;
		}
	}
}

static peer *peer_new(int server, int tls, const char *ciphers, const char *suites)
{
	peer *p = calloc(1, sizeof(*p));
	signal(SIGPIPE, SIG_IGN);
	p->fd = -1;
	p->ctx = SSL_CTX_new(server ? TLS_server_method() : TLS_client_method());
	if (ciphers && *ciphers && SSL_CTX_set_cipher_list(p->ctx, ciphers) != 1)
		goto fail;
	if (suites && *suites && SSL_CTX_set_ciphersuites(p->ctx, suites) != 1)
		goto fail;
	if (tls == 12) {
		SSL_CTX_set_max_proto_version(p->ctx, TLS1_2_VERSION);
	} else if (tls == 10 || tls == 11) {
		int v = tls == 10 ? TLS1_VERSION : TLS1_1_VERSION;
		SSL_CTX_set_security_level(p->ctx, 0);
		SSL_CTX_set_min_proto_version(p->ctx, v);
		SSL_CTX_set_max_proto_version(p->ctx, v);
	} else if (tls == 13)
		SSL_CTX_set_min_proto_version(p->ctx, TLS1_3_VERSION);
	p->ssl = SSL_new(p->ctx);
	p->in = BIO_new(BIO_s_mem());
	p->out = BIO_new(BIO_s_mem());
	BIO_set_mem_eof_return(p->in, -1);
	BIO_set_mem_eof_return(p->out, -1);
	SSL_set_bio(p->ssl, p->in, p->out);
	SSL_set_app_data(p->ssl, p);
	if (server)
		SSL_set_accept_state(p->ssl);
	else
		SSL_set_connect_state(p->ssl);
	return p;
fail:
	SSL_CTX_free(p->ctx);
	free(p);
	return NULL;
}

void peer_set_frag(peer *p, size_t frag, unsigned us) { p->frag = frag; p->frag_us = us; }
int peer_fd(peer *p) { return p->fd; }
const char *peer_error(peer *p) { return p->err; }
const char *peer_identity(peer *p) { return p->identity; }
const char *peer_version(peer *p) { return SSL_get_version(p->ssl); }
const char *peer_cipher(peer *p) { return SSL_get_cipher(p->ssl); }
int peer_reused(peer *p) { return SSL_session_reused(p->ssl); }

/* TCP connect only. */
peer *peer_client(const char *ip, int port, const char *src_ip, const char *identity,
    const unsigned char *psk, unsigned psk_len, int tls, const char *ciphers,
    const char *suites, int rcvbuf, int timeout_ms)
{
	peer *p = peer_new(0, tls, ciphers && *ciphers ? ciphers : "PSK", suites);
	struct sockaddr_in a;
	int one = 1;
	if (!p)
		return NULL;
	snprintf(p->identity, sizeof(p->identity), "%s", identity);
	if (psk_len > sizeof(p->psk))
		psk_len = sizeof(p->psk);
	memcpy(p->psk, psk, psk_len);
	p->psk_len = psk_len;
	SSL_set_psk_client_callback(p->ssl, client_cb);
	p->fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
	if (rcvbuf)
		setsockopt(p->fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof(rcvbuf));
	setsockopt(p->fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	memset(&a, 0, sizeof(a));
	a.sin_family = AF_INET;
	if (src_ip && *src_ip) {
		inet_pton(AF_INET, src_ip, &a.sin_addr);
		bind(p->fd, (struct sockaddr *)&a, sizeof(a));
	}
	a.sin_port = htons((unsigned short)port);
	inet_pton(AF_INET, ip, &a.sin_addr);
	fcntl(p->fd, F_SETFL, fcntl(p->fd, F_GETFL, 0) | O_NONBLOCK);
	if (connect(p->fd, (struct sockaddr *)&a, sizeof(a)) == -1) {
		int e = 0;
		socklen_t l = sizeof(e);
		if (errno != EINPROGRESS || wait_fd(p->fd, POLLOUT, now() + timeout_ms / 1000.0) != 1
		    || getsockopt(p->fd, SOL_SOCKET, SO_ERROR, &e, &l) || e) {
			if (e)
				errno = e;
			set_err(p, "connect");
			p->reset = 1;
		}
	}
	return p;
}

int peer_connected(peer *p) { return !p->reset; }

/* Wrap an accepted socket. */
peer *peer_server(int fd, int tls, const char *ciphers, const char *suites, int rcvbuf)
{
	peer *p = peer_new(1, tls, ciphers && *ciphers ? ciphers : "PSK", suites);
	int one = 1;
	if (!p)
		return NULL;
	p->fd = fd;
	setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof(one));
	if (rcvbuf)
		setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcvbuf, sizeof(rcvbuf));
	SSL_set_psk_server_callback(p->ssl, server_cb);
	return p;
}

void peer_add_id(peer *p, const char *id, const unsigned char *psk, unsigned len)
{
	if (p->n_ids < 16) {
		snprintf(p->ids[p->n_ids], sizeof(p->ids[0]), "%s", id);
		memcpy(p->keys[p->n_ids], psk, len);
		p->key_lens[p->n_ids++] = len;
	}
}

int peer_handshake(peer *p, int timeout_ms)
{
	double deadline = now() + timeout_ms / 1000.0;
	for (;;) {
		int n, e, r;
		ERR_clear_error();
		n = SSL_do_handshake(p->ssl);
		e = SSL_get_error(p->ssl, n);
		if (n != 1 && e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE)
			set_err(p, "handshake");
		r = flush_out(p, timeout_ms);
		if (n == 1)
			return r == OK ? OK : r;
		if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE)
			return R_TLS;
		if (r != OK && r != R_RESET)
			return r;
		if ((r = fill_in(p, deadline)) != OK)
			return r;
	}
}

/* One step of the handshake: produce the next flight without sending it. */
int peer_handshake_flight(peer *p, unsigned char *out, int max)
{
	char *b;
	long n;
	ERR_clear_error();
	(void)SSL_do_handshake(p->ssl);
	ERR_clear_error();
	n = BIO_get_mem_data(p->out, &b);
	if (n > max)
		n = max;
	memcpy(out, b, (size_t)n);
	(void)BIO_reset(p->out);
	return (int)n;
}

void peer_set_max_in(peer *p, size_t n) { p->max_in = n; }
int peer_fill(peer *p, int timeout_ms) { return fill_in(p, now() + timeout_ms / 1000.0); }

/* Encrypt as one SSL_write (records of at most 16K) and send. */
int peer_write(peer *p, const unsigned char *b, int n, int timeout_ms)
{
	int r;
	if (n > 0) {
		ERR_clear_error();
		if (SSL_write(p->ssl, b, n) != n) {
			set_err(p, "SSL_write");
			return R_TLS;
		}
	}
	r = flush_out(p, timeout_ms);
	return r;
}

/* Encrypt several pieces as separate records but send as one TCP stream. */
int peer_encrypt(peer *p, const unsigned char *b, int n)
{
	ERR_clear_error();
	return SSL_write(p->ssl, b, n) == n ? OK : R_TLS;
}
int peer_flush(peer *p, int timeout_ms) { return flush_out(p, timeout_ms); }
int peer_take(peer *p, unsigned char *out, int max)
{
	char *b;
	long n = BIO_get_mem_data(p->out, &b);
	if (n > max)
		n = max;
	memcpy(out, b, (size_t)n);
	(void)BIO_reset(p->out);
	return (int)n;
}

/* >0: bytes, else one of the R_ codes. */
int peer_read(peer *p, unsigned char *b, int max, int timeout_ms)
{
	double deadline = now() + timeout_ms / 1000.0;
	for (;;) {
		int n, e, r;
		ERR_clear_error();
		n = SSL_read(p->ssl, b, max);
		if (n > 0) {
			flush_out(p, timeout_ms);
			return n;
		}
		e = SSL_get_error(p->ssl, n);
		if (e == SSL_ERROR_ZERO_RETURN)
			return R_CLOSED;
		if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) {
			set_err(p, "SSL_read");
			return R_TLS;
		}
		flush_out(p, timeout_ms);
		if ((r = fill_in(p, deadline)) != OK)
			return r;
	}
}

/* Send close_notify. */
int peer_close_notify(peer *p, int timeout_ms)
{
	ERR_clear_error();
	(void)SSL_shutdown(p->ssl);
	ERR_clear_error();
	return flush_out(p, timeout_ms);
}

/* Wait for TCP EOF (1) or reset (-2) or timeout (-1), discarding data. */
int peer_wait_eof(peer *p, int timeout_ms)
{
	double deadline = now() + timeout_ms / 1000.0;
	for (;;) {
		int r = fill_in(p, deadline);
		if (r == R_EOF)
			return OK;
		if (r != OK)
			return r;
		(void)BIO_reset(p->in);
	}
}

/* Ask for a new handshake (TLS 1.2) or new keys (TLS 1.3). */
int peer_rekey(peer *p, int timeout_ms)
{
	ERR_clear_error();
	if (SSL_version(p->ssl) == TLS1_3_VERSION)
		(void)SSL_key_update(p->ssl, SSL_KEY_UPDATE_REQUESTED);
	else
		(void)SSL_renegotiate(p->ssl);
	(void)SSL_do_handshake(p->ssl);
	ERR_clear_error();
	return flush_out(p, timeout_ms);
}

void peer_half_close(peer *p) { shutdown(p->fd, SHUT_WR); }

void peer_detach(peer *p) { p->fd = -1; }

void peer_free(peer *p, int rst)
{
	if (p->fd != -1) {
		if (rst) {
			struct linger l = { 1, 0 };
			setsockopt(p->fd, SOL_SOCKET, SO_LINGER, &l, sizeof(l));
		}
		close(p->fd);
	}
	SSL_free(p->ssl);
	SSL_CTX_free(p->ctx);
	free(p);
}
