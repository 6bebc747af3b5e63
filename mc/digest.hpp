// reference MD5 (RFC 1321) and SHA-1 (FIPS 180-1), bit-granular for MD5
#ifndef MC_DIGEST_HPP
#define MC_DIGEST_HPP
#include <cmath>
#include <cstdint>
#include <vector>
namespace ref {
	typedef std::vector<unsigned char> Bytes;
	inline uint32_t rol(uint32_t x, int s) { return (x << s) | (x >> (32 - s)); }
	inline std::vector<bool> bits_of(Bytes const& m) { std::vector<bool> b; for (unsigned char c : m) for (int i = 7; i >= 0; --i) b.push_back((c >> i) & 1); return b; }
	// message plus 1, zeros and the length, as bytes
	inline Bytes padded(std::vector<bool> b, bool big) { uint64_t n = b.size(); b.push_back(true); while (b.size() % 512 != 448) b.push_back(false); Bytes r(b.size() / 8, 0); for (std::size_t i = 0; i < b.size(); ++i) if (b[i]) r[i / 8] |= 0x80 >> (i % 8); for (int i = 0; i < 8; ++i) r.push_back((unsigned char)(n >> 8 * (big ? 7 - i : i))); return r; }
	inline Bytes md5(std::vector<bool> const& m) {
		static const int sh[4][4] = {{7, 12, 17, 22}, {5, 9, 14, 20}, {4, 11, 16, 23}, {6, 10, 15, 21}}; static uint32_t T[64]; if (!T[0]) for (int i = 0; i < 64; ++i) T[i] = (uint32_t)(long long)std::floor(std::fabs(std::sin((double)(i + 1))) * 4294967296.0);
		uint32_t h[4] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u}; Bytes p = padded(m, false);
		for (std::size_t o = 0; o < p.size(); o += 64) {
			uint32_t x[16]; for (int i = 0; i < 16; ++i) x[i] = p[o + 4 * i] | p[o + 4 * i + 1] << 8 | p[o + 4 * i + 2] << 16 | (uint32_t)p[o + 4 * i + 3] << 24;
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3];
			for (int i = 0; i < 64; ++i) { uint32_t f; int g, r = i / 16; if (r == 0) { f = (b & c) | (~b & d); g = i; } else if (r == 1) { f = (d & b) | (~d & c); g = (5 * i + 1) % 16; } else if (r == 2) { f = b ^ c ^ d; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~d); g = 7 * i % 16; } uint32_t t = d; d = c; c = b; b = b + rol(a + f + T[i] + x[g], sh[r][i % 4]); a = t; }
			h[0] += a; h[1] += b; h[2] += c; h[3] += d;
		}
		Bytes r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.push_back((unsigned char)(h[i] >> 8 * j)); return r;
	}
	inline Bytes md5(Bytes const& m) { return md5(bits_of(m)); }
	inline Bytes sha1(Bytes const& m) {
		uint32_t h[5] = {0x67452301u, 0xefcdab89u, 0x98badcfeu, 0x10325476u, 0xc3d2e1f0u}; Bytes p = padded(bits_of(m), true);
		for (std::size_t o = 0; o < p.size(); o += 64) {
			uint32_t w[80]; for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[o + 4 * i] << 24 | p[o + 4 * i + 1] << 16 | p[o + 4 * i + 2] << 8 | p[o + 4 * i + 3]; for (int i = 16; i < 80; ++i) w[i] = rol(w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16], 1);
			uint32_t a = h[0], b = h[1], c = h[2], d = h[3], e = h[4];
			for (int i = 0; i < 80; ++i) { uint32_t f, k; if (i < 20) { f = d ^ (b & (c ^ d)); k = 0x5a827999u; } else if (i < 40) { f = b ^ c ^ d; k = 0x6ed9eba1u; } else if (i < 60) { f = (b & c) | (d & (b | c)); k = 0x8f1bbcdcu; } else { f = b ^ c ^ d; k = 0xca62c1d6u; } uint32_t t = rol(a, 5) + f + e + k + w[i]; e = d; d = c; c = rol(b, 30); b = a; a = t; }
			h[0] += a; h[1] += b; h[2] += c; h[3] += d; h[4] += e;
		}
		Bytes r; for (int i = 0; i < 5; ++i) for (int j = 3; j >= 0; --j) r.push_back((unsigned char)(h[i] >> 8 * j)); return r;
	}
	inline bool self_test() { // RFC 1321 A.5 and FIPS 180-1 appendices
		auto hex = [](Bytes const& b) { std::string s; char t[3]; for (unsigned char c : b) { std::snprintf(t, 3, "%02x", c); s += t; } return s; }; auto by = [](std::string const& s) { return Bytes(s.begin(), s.end()); };
		return hex(md5(by(""))) == "d41d8cd98f00b204e9800998ecf8427e" && hex(md5(by("abc"))) == "900150983cd24fb0d6963f7d28e17f72" && hex(md5(by("12345678901234567890123456789012345678901234567890123456789012345678901234567890"))) == "57edf4a22be3c955ac49da2e2107b67a"
			&& hex(sha1(by("abc"))) == "a9993e364706816aba3e25717850c26c9cd0d89d" && hex(sha1(by("abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"))) == "84983e441c3bd26ebaae4aa1f95129e5e54670f1" && hex(sha1(by(""))) == "da39a3ee5e6b4b0d3255bfef95601890afd80709";
	}
}
#endif
