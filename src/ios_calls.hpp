#pragma once
#include <string>
#include <vector>
typedef unsigned __int128 u128;
struct IosItem { bool ok; int bits; u128 v; };
// flags: 1 fixed, 2 scientific, 4 uppercase; adjust: 0 default, 1 left, 2 right
void ios_out(std::string &out, int bits, u128 v, int flags, long precision, int width, char fill, int adjust, long &width_after, bool &good);
// reads one number per entry of kinds (32/64/128) through one stream; rest receives what is left unread
void ios_in(const std::string &text, const std::vector<int> &kinds, std::vector<IosItem> &items, std::string &rest);
extern void (*ios_go)(), (*ios_halt)(); // called right before and after the operator itself, when set
