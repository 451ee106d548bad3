ID = 's18-message-on-stack'
PROP = 'C21'
EDITS = [('src/xmss-alt/xmss_common.c', "    h_msg(hash_func, msg_h, msg, msglen, hash_key, 3 * n, n);\n    //---", "    // the digest is taken from a copy: msg is cleared below\n    unsigned char msg_copy[msglen + 1];\n    memcpy(msg_copy, msg, msglen);\n    h_msg(hash_func, msg_h, msg_copy, msglen, hash_key, 3 * n, n);\n    //---")]
NEEDS = 'a message of some megabytes'
BREAKS = 'the message is copied to the stack, which overflows'
DEMO = r'''
#include <cstdio>
#include <qrl/xmssFast.h>
int main()
{
    XmssFast k(TSEED(48, 7), 4);
    std::vector<uint8_t> m(64 << 20, 3);
    auto sig = k.sign(m);
    return !XmssBase::verify(m, sig, k.getPK());
}
'''
