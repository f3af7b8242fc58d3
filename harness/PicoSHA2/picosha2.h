// Stand-in for the PicoSHA2 submodule, which is empty in this sandbox.
// Implements SHA-256 (FIPS 180-4) with the two pieces of the PicoSHA2 API that lib/src/io/auth/Digest.cpp uses.
// The SHA-256 test vectors and the digests of the repository's own TestDigest.cpp are checked by the auth driver.
#pragma once
#include <array>
#include <cstddef>
#include <cstdint>
#include <vector>

namespace picosha2
{
    constexpr size_t k_digest_size = 32;

    class hash256_one_by_one
    {
    public:
        hash256_one_by_one() { init(); }

        void init()
        {
            m_h = { 0x6a09e667u, 0xbb67ae85u, 0x3c6ef372u, 0xa54ff53au, 0x510e527fu, 0x9b05688cu, 0x1f83d9abu, 0x5be0cd19u };
            m_buffer.clear();
            m_length = 0;
        }

        template <typename It>
        void process(It first, It last)
        {
            for (; first != last; ++first)
            {
                m_buffer.push_back(static_cast<uint8_t>(*first));
                ++m_length;
                if (m_buffer.size() == 64) { block(); m_buffer.clear(); }
            }
        }

        void finish()
        {
            uint64_t bits = m_length * 8;
            m_buffer.push_back(0x80);
            if (m_buffer.size() > 56) { m_buffer.resize(64, 0); block(); m_buffer.clear(); }
            m_buffer.resize(56, 0);
            for (int i = 7; i >= 0; --i) m_buffer.push_back(static_cast<uint8_t>(bits >> (i * 8)));
            block();
            m_buffer.clear();
        }

        template <typename It>
        void get_hash_bytes(It first, It last) const
        {
            for (size_t i = 0; i < 32 && first != last; ++i, ++first)
                *first = static_cast<uint8_t>(m_h[i / 4] >> (8 * (3 - i % 4)));
        }

    private:
        static uint32_t ror(uint32_t v, unsigned n) { return (v >> n) | (v << (32 - n)); }

        void block()
        {
            static constexpr uint32_t k[64] = {
                0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
                0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
                0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
                0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2 };
            uint32_t w[64];
            for (int i = 0; i < 16; ++i)
                w[i] = (uint32_t{ m_buffer[i * 4] } << 24) | (uint32_t{ m_buffer[i * 4 + 1] } << 16) | (uint32_t{ m_buffer[i * 4 + 2] } << 8) | uint32_t{ m_buffer[i * 4 + 3] };
            for (int i = 16; i < 64; ++i)
                w[i] = w[i - 16] + (ror(w[i - 15], 7) ^ ror(w[i - 15], 18) ^ (w[i - 15] >> 3)) + w[i - 7] + (ror(w[i - 2], 17) ^ ror(w[i - 2], 19) ^ (w[i - 2] >> 10));
            auto [a, b, c, d, e, f, g, h] = m_h;
            for (int i = 0; i < 64; ++i)
            {
                uint32_t t1 = h + (ror(e, 6) ^ ror(e, 11) ^ ror(e, 25)) + ((e & f) ^ (~e & g)) + k[i] + w[i];
                uint32_t t2 = (ror(a, 2) ^ ror(a, 13) ^ ror(a, 22)) + ((a & b) ^ (a & c) ^ (b & c));
                h = g; g = f; f = e; e = d + t1; d = c; c = b; b = a; a = t1 + t2;
            }
            m_h[0] += a; m_h[1] += b; m_h[2] += c; m_h[3] += d; m_h[4] += e; m_h[5] += f; m_h[6] += g; m_h[7] += h;
        }

        std::array<uint32_t, 8> m_h;
        std::vector<uint8_t> m_buffer;
        uint64_t m_length;
    };
}
