//! Generated by tools/gen_ref.py: reference parameters, canonical little-endian limbs.
pub static BN_RC: [[[u64; 4]; 3]; 65] = [
    [[0x8d21d47304cd8e6e, 0x14c4993c11bb2993, 0xd05986d656f40c21, 0x0ee9a592ba9a9518], [0x5696fff40956e864, 0x887b08d4d00868df, 0x5986587169fc1bcd, 0x00f1445235f2148c], [0xe879f3890ecf73f5, 0x30c728730b7ab36c, 0x1f29a058d0fa80b9, 0x08dff3487e8ac99e]],
    [[0x20966310fadc01d0, 0x56c35342c84bda6e, 0xc3ce28f7532b13c8, 0x2f27be690fdaee46], [0x8b8327bebca16cf2, 0xb763fe04b8043ee4, 0x2416bebf3d4f6234, 0x2b2ae1acf68b7b8d], [0xe64b44c7dbf11cfa, 0x5952c175ab6b03ea, 0xcca5eac06f97d4d5, 0x0319d062072bef7e]],
    [[0x8ef7b387bf28526d, 0xc8b7bf27ad49c629, 0x8a376df87af4a63b, 0x28813dcaebaeaa82], [0x150928adddf9cb78, 0x2033865200c352bc, 0xf181bf38e1c1d40d, 0x2727673b2ccbc903], [0xb8fb9e31e65cc632, 0x6efbd43e340587d6, 0xe74abd2b2a1494cd, 0x234ec45ca27727c2]],
    [[0xcd99ff6e8797d428, 0xab10a8150a337b1c, 0x7f862cb2cf7cf760, 0x15b52534031ae18f], [0xd701d4eecf68d1f6, 0x8e0e8a8d1b58b132, 0x5ed9a3d186b79ce3, 0x0dc8fad6d9e4b35f], [0x97805518a47e4d9c, 0xea4eb378f62e1fec, 0x600f705fad3fb567, 0x1bcd95ffc211fbca]],
    [[0x17cb978d069de559, 0xc76da36c25789378, 0xe9eff81b016fc34d, 0x10520b0ab721cadf], [0xe88a9eb81f5627f6, 0x2932498075fed0ac, 0x9b257d8ed5fbbaf4, 0x1f6d48149b8e7f7d], [0xca34bdb5460c8705, 0xfff8dc1c816f0dc9, 0xd29e00ef35a2089b, 0x1d9655f652309014]],
    [[0x8fe3d4185697cc7d, 0xa731ff67e4703205, 0xb051f7b1cd43a99b, 0x04df5a56ff95bcaf], [0xf6ec282b6e4be828, 0x8690a10a8c8424a7, 0x151b3d290cedaf14, 0x0672d995f8fff640], [0x9fc1d8209b5c75b9, 0x0c9a9dcc06f2708e, 0xb21200d7ffafdd5f, 0x099952b414884454]],
    [[0x83fd0e843a6b9fa6, 0x48e43586a9b4cd91, 0x7c483143ba8d4694, 0x052cba2255dfd00c], [0x16077cb93c464ddc, 0x82de55707251ad77, 0xb0bd74712b7999af, 0x0b8badee690adb8e], [0xb963d0a8e4b2bdd1, 0x49c15d60683a8050, 0x5a1ee651020c07c7, 0x119b1590f13307af]],
    [[0xce15be0bfb4a8d09, 0x2c4acfc884ef4ee5, 0x2529d36be0f67b83, 0x03150b7cd6d5d17b], [0xbe69cb317c9ea565, 0x5374efb83d80898a, 0x3cf1951f17391235, 0x2cc6182c5e14546e], [0x92d2cd73111bf0f9, 0x4218cadedac14e2b, 0x50cfe129a404b376, 0x005032551e6378c4]],
    [[0x88f9da2cc28276b5, 0x6469c399fcc069fb, 0xbb147e972ebcb951, 0x233237e3289baa34], [0xe80c2d4c24d60280, 0x23037f21b34ae5a4, 0xc980d31674bfbe63, 0x05c8f4f4ebd4a6e3], [0xee1f09b2590fc65b, 0x52bcf35ef3aeed91, 0xba05d818a319f252, 0x0a7b1db13042d396]],
    [[0x5df542365a404ec0, 0xf156e2b086ff47dc, 0xb14296572c9d32db, 0x2a73b71f9b210cf5], [0x76a760bb5c50c460, 0xec18f2c4dbe7f229, 0x935107e9ffc91dc3, 0x1ac9b0417abcc9a1], [0x9015ee046dc93fc0, 0x269f3e4d6cb10434, 0x3fabb076707ef479, 0x12c0339ae0837482]],
    [[0x8246682e56e9a28e, 0x52900aa3253baac6, 0x7f5b18db4e1e704f, 0x0b7475b102a165ad], [0x32ab3aa88d7f8448, 0x7c843e379366f2ea, 0xdb1c5e49f6e8b891, 0x037c2849e191ca3e], [0x45fdb176a716346f, 0xd5206c5c93a07dc1, 0xe92674661e217e9b, 0x05a6811f8556f014]],
    [[0x7b675ef5f38bd66e, 0x4076e87a7b2883b4, 0x6e947b75d54e9f04, 0x29a795e7d9802894], [0x507be199981fd22f, 0x6e8c7382c8a1585c, 0x45a3857afc18f582, 0x20439a0c84b322eb], [0x4a2a6f2a0982c887, 0xbb50f27799a84b6d, 0x94ec2050c7371ff1, 0x2e0ba8d94d9ecf4a]],
    [[0xe6d0ddcca17d71c8, 0x17822cd2109048d2, 0xca38eb7cce822b45, 0x143fd115ce08fb27], [0xc84323623be9caf1, 0xf8611659323dbcbf, 0x57968dbbdcf813cd, 0x0c64cbecb1c734b8], [0xf1426cef9403da53, 0xe74f348d62c2b670, 0x46fca925c163ff5a, 0x028a305847c683f6]],
    [[0x24d6755b5db9e30c, 0x6a6bcb64d89427b8, 0x5fa940ab4c4380f2, 0x2e4ef510ff0b6fda], [0xb96384f50579400e, 0x8925b4f6d033b078, 0x63d79270c956ce3b, 0x0081c95bc43384e6], [0xba8a9f4023a0bb38, 0xe2491b349c039a0b, 0x187e2fade687e05e, 0x2ed5f0c91cbd9749]],
    [[0x990f01f33a735206, 0x3448a22c76234c8c, 0x4bbf374ed5aae2f0, 0x30509991f88da350], [0xa7529094424ec6ad, 0xf0a1119fb2067b41, 0x221b7c4d49a356b9, 0x1c3f20fd55409a53], [0x170887b47ddcb96c, 0xc46bb2213e8e131e, 0x049514459b6e18ee, 0x10b4e7f3ab5df003]],
    [[0x039aa3502e43adef, 0xdd80f804c077d775, 0x3ddd543d891c2abd, 0x2a1982979c3ff7f4], [0x5cad0f1315bd5c91, 0xba431ebc396c9af9, 0xfeddbead56d6d55d, 0x1c74ee64f15e1db6], [0x9c2fe45a0ae146a0, 0x9e4f2e8b82708cfa, 0xeab9303cace01b4b, 0x07533ec850ba7f98]],
    [[0x8a11abf3764c0750, 0x285c68f42d42c180, 0xa151e4eeaf17b154, 0x21576b438e500449], [0x743d6930836d4a9e, 0xbce8384c815f0906, 0x08ad5ca193d62f10, 0x2f17c0559b8fe796], [0xe665b0b1b7e2730e, 0x9775a4201318474a, 0xa79e8aae946170bc, 0x2d477e3862d07708]],
    [[0xd89be0f5b2747eab, 0xafba2266c38f5abc, 0x90e095577984f291, 0x162f5243967064c3], [0x7777a70092393311, 0xd7a8596a87f29f8a, 0x264ecd2c8ae50d1a, 0x2b4cb233ede9ba48], [0x4254e7c35e03b07a, 0x6db2eece6d85c4cf, 0x1dbaf8f462285477, 0x2c8fbcb2dd8573dc]],
    [[0xe5e88db870949da9, 0x9e1b61e9f601e9ad, 0xf2ff453f0cd56b19, 0x1d6f347725e4816a], [0x4cd49af5c4565529, 0xf9e6ac02b68d3132, 0xebc2d8b3df5b913d, 0x204b0c397f4ebe71], [0x4ff8fb75bc79c502, 0x9ecb827cd7dc2553, 0x4f1149b3c63c3c2f, 0x0c4cb9dc3c4fd817]],
    [[0x9a616ddc45bc7b54, 0x1e5c49475279e063, 0xa25416474f493030, 0x174ad61a1448c899], [0x3a9816d49a38d2ef, 0xeaaa28c177cc0fa1, 0xf759df4ec2f3cde2, 0x1a96177bcf4d8d89], [0x8242ace360b8a30a, 0x05202c126a233c1a, 0xd0ef8054bc60c4ff, 0x066d04b24331d71c]],
    [[0x27037a62aa1bd804, 0x381cc65f72e02ad5, 0x2195782871c6dd3b, 0x2a4c4fc6ec0b0cf5], [0xe55afc01219fd649, 0x5e727f8446f6d9d7, 0x47e9f2e14a7cedc9, 0x13ab2d136ccf37d4], [0x4c2e3e869acc6a9a, 0xc1b04fcec26f5519, 0x19d24d843dc82769, 0x1121552fca260616]],
    [[0x09a5546c7c97cff1, 0xa6cd267d595c4a89, 0x889bc81715c37d77, 0x00ef653322b13d6c], [0x845aca35d8a397d3, 0x400c776d652595d9, 0x8b261d8ba74051e6, 0x0e25483e45a66520], [0x46448db979eeba89, 0x395ac3d4dde92d8c, 0x245264659e15d88e, 0x29f536dcb9dd7682]],
    [[0x0e456baace0fa5be, 0x5a124e2780bbea17, 0xdfda33575dbdbd88, 0x2a56ef9f2c53feba], [0xee416240a8cb9af1, 0xf2ae2999a46762e8, 0xecfb7a2d17b5c409, 0x1c8361c78eb5cf5d], [0xd3d0ab4be74319c5, 0x83e8e68a764507bf, 0xc0473089aaf0206b, 0x151aff5f38b20a0f]],
    [[0xe76e47615b51f100, 0xa9f52fc8c8b6cdd1, 0xc1b239c88f7f9d43, 0x04c6187e41ed881d], [0x9e801b7ddc9c2967, 0x4b81c61ed1577644, 0x10d84331f6fb6d53, 0x13b37bd80f4d27fb], [0x9321ceb1c4e8a8e4, 0x2ce3664c2a52032c, 0xf578bfbd32c17b7a, 0x01a5c536273c2d9d]],
    [[0x832239065b7c3b02, 0x4a9a2c666b9726da, 0x5ad05f5d7acb950b, 0x2ab3561834ca7383], [0x9f7ed516a597b646, 0xacaf6af4e95d3bf6, 0x200fe6d686c0d613, 0x1d4d8ec291e720db], [0x1514c9c80b65af1d, 0xb925351240a04b71, 0x8f5784fe7919fd2b, 0x041294d2cc484d22]],
    [[0x042971dd90e81fc6, 0x98f57939d126e392, 0x1c4fa715991f0048, 0x154ac98e01708c61], [0x4524563bc6ea4da4, 0x50b3684c88f8b0b0, 0x3eedd84093aef510, 0x0b339d8acca7d4f8], [0x81ed95b50839c82e, 0x98f0e71eaff4a7dd, 0x54a4f84cfbab3445, 0x0955e49e6610c942]],
    [[0x3525401ea0654626, 0xa9a6f41e6f535c6f, 0x26b9e22206f15abc, 0x06746a6156eba544], [0xac917c7ff32077fb, 0x38e5790e2bd0a196, 0x496f3820c549c278, 0x0f18f5a0ecd1423c], [0x2a738223d6f76e13, 0x4bb563583ede7bc9, 0x8ac59eff5beb261e, 0x04f6eeca1751f730]],
    [[0xc1768d26fc0b3758, 0x8811eb116fb3e45b, 0xc1a3ec4da3cdce03, 0x2b56973364c4c4f5], [0x83feb65d437f29ef, 0x8e1392b385716a5d, 0xdcd76b89804b1bcb, 0x123769dd49d5b054], [0x94257b2fb01c63e9, 0xa989f64464711509, 0x88ee52b91169aace, 0x2147b424fc48c80a]],
    [[0xea54ad897cebe54d, 0x647e6f34ad4243c2, 0x1a6c5505ea332a29, 0x0fdc1f58548b8570], [0x944f685cc0a0b1f2, 0xbceff28c5dbbe0c3, 0xdf68abcf0f7786d4, 0x12373a8251fea004], [0xdd8a1f35c1a90035, 0xa642756b6af44203, 0xad7ea52ff742c9e8, 0x21e4f4ea5f35f85b]],
    [[0x8a81934f1bc3b147, 0xb57366492f45e90d, 0xdfb4722224d4c462, 0x16243916d69d2ca3], [0xa13a4159cac04ac2, 0xabc21566e1a0453c, 0xf66f9adbc88b4378, 0x1efbe46dd7a578b4], [0x3b672cc96a88969a, 0xd468d5525be66f85, 0x8886020e23a7f387, 0x07ea5e8537cf5dd0]],
    [[0xa9fe16c0b76c00bc, 0x650f19a75e7ce11c, 0xb7b478a30f9a5b63, 0x05a8c4f9968b8aa3], [0x2d9d57b72a32e83f, 0x3f7818c701b9c788, 0xfbfe59bd345e8dac, 0x20f057712cc21654], [0x9bd90b33eb33db69, 0x6dcd8e88d01d4901, 0x9672f8c67fee3163, 0x04a12ededa9dfd68]],
    [[0xe49ec9544ccd101a, 0xbd136ce5091a6767, 0xe44f1e5425a51dec, 0x27e88d8c15f37dce], [0x176c41ee433de4d1, 0x6e096619a7703223, 0xb8a5c8c5e95a41f6, 0x2feed17b84285ed9], [0x6972b8bd53aff2b8, 0x94e5942911312a0d, 0x404241420f729cf3, 0x1ed7cc76edf45c7c]],
    [[0xdf2874be45466b1a, 0xac6783476144cdca, 0x157ff8c586f5660e, 0x15742e99b9bfa323], [0x284f033f27d0c785, 0x77107454c6ec0317, 0xc895fc6887ddf405, 0x1aac285387f65e82], [0xec75a96554d67c77, 0x832e2e7a49775f71, 0xf9ddadbdb6057357, 0x25851c3c845d4790]],
    [[0x0ddccc3d9f146a67, 0x53b7ebba2c552337, 0xce78457db197edf3, 0x15a5821565cc2ec2], [0x2f15485f28c71727, 0xdcf64f3604427750, 0x0efa7e31a1db5966, 0x2411d57a4813b998], [0x58828b5ef6cb4c9b, 0x47e9a98e12f4cd25, 0x13e335b8c0b6d2e6, 0x002e6f8d6520cd47]],
    [[0x398834609e0315d2, 0xaf8f0e91e2fe1ed7, 0x97da00b616b0fcd1, 0x2ff7bc8f4380cde9], [0xe93be4febb0d3cbe, 0x2e9521f6b7bb68f1, 0x5ee02724471bcd18, 0x00b9831b94852559], [0x7d77adbf0c9c3512, 0x1ca408648a4743a8, 0x86913b0e57c04e01, 0x0a2f53768b8ebf6a]],
    [[0x7f2a290305e1198d, 0x0f599ff7e94be69b, 0x3a479f91ff239e96, 0x00248156142fd037], [0x50eb512a2b2bcda9, 0x397196aa6a542c23, 0x28cf8c02ab3f0c9a, 0x171d5620b87bfb13], [0x9d1045e4ec34a808, 0x60c952172dd54dd9, 0x70087c7c10d6fad7, 0x170a4f55536f7dc9]],
    [[0x482eca17e2dbfae1, 0xcc37e38c1cd211ba, 0x2ef3134aea04336e, 0x29aba33f799fe66c], [0xb5ba650369e64973, 0xe70d114a03f6a0e8, 0xfdd1bb1945088d47, 0x1e9bc179a4fdd758], [0x9c9e1c43bdaf8f09, 0xfeaad869a9c4b44f, 0x58f7f4892dfb0b5a, 0x1dd269799b660fad]],
    [[0x5d1dd2cb0f24af38, 0x7ccd426fe869c7c9, 0x401181d02e15459e, 0x22cdbc8b70117ad1], [0xd5ba93b9c7dacefd, 0xfd3150f52ed94a7c, 0x3a9f57a55c503fce, 0x0ef042e454771c53], [0x3b304ffca62e8284, 0x1318e8b08a0359a0, 0xf287f3036037e885, 0x11609e06ad6c8fe2]],
    [[0x08b08f5b783aa9af, 0xfecd58c076dfe427, 0x9e753eea427c17b7, 0x1166d9e554616dba], [0xf855a888357ee466, 0x177fbf4cd2ac0b56, 0x93413026354413db, 0x2de52989431a8595], [0x74bf01cf5f71e9ad, 0xf51aee5b17b8e89d, 0x9a6da492f3a8ac1d, 0x3006eb4ffc7a8581]],
    [[0x62344c8225145086, 0x2993fe8f0a4639f9, 0xfdcf6fff9e3f6f42, 0x2af41fbb61ba8a80], [0x81b214bace4827c3, 0x8718ab27889e85e7, 0xe5a6b41a8ebc85db, 0x119e684de476155f], [0xcff784b97b3fd800, 0xb51248c23828f047, 0x188bea59ae363537, 0x1835b786e2e8925e]],
    [[0x6c40e285ab32eeb6, 0xd152bac2a7905c92, 0x4d794996c6433a20, 0x28201a34c594dfa3], [0x4a761f88c22cc4e7, 0x864c82eb57118772, 0x94e80fefaf78b000, 0x083efd7a27d17510], [0x9e079564f61fd13b, 0x11c16df7774dd851, 0x6158e61ceea27be8, 0x0b6f88a357719952]],
    [[0x14390e6ee4254f5b, 0x589511ca00d29e10, 0x644f66e1d6471a94, 0x0ec868e6d15e51d9], [0x00d937ab84c98591, 0xecd3e74b939cd40d, 0x1ac0c9b3ed2e1142, 0x2af33e3f86677127], [0x364ce5e47951f178, 0x34568c547dd6858b, 0xd09b5d961c6ace77, 0x0b520211f904b5e7]],
    [[0xca228620188a1d40, 0xa0c56ac4270e822c, 0xd8db58f10062a92e, 0x0b2d722d0919a1aa], [0xe0061d1ed6e562d4, 0x57b54a9991ca38bb, 0xd980ceb37c2453e9, 0x1f790d4d7f8cf094], [0xda92ceb01e504233, 0x0885c16235a2a6a8, 0xaea97cd385f78015, 0x0171eb95dfbf7d1e]],
    [[0x762305381b168873, 0x790b40defd2c8650, 0x329bf6885da66b9b, 0x0c2d0e3b5fd57549], [0x5d3803054407a18d, 0x7cbcafa589e283c3, 0x4e5a8228b4e72b37, 0x1162fb28689c2715], [0x1623ef8249711bc0, 0x282c5a92a89e1992, 0x64ad386a91e8310f, 0x2f1459b65dee441b]],
    [[0xc243f70d1b53cfbb, 0xbc489d46754eb712, 0x996d74367d5cd4c1, 0x1e6ff3216b688c3d], [0x76881f9326478875, 0xd741a6f36cdc2a05, 0x681487d27d157802, 0x01ca8be73832b8d0], [0x0b9b5de315f9650e, 0x680286080b10cea0, 0x86f976d5bdf223dc, 0x1f7735706ffe9fc5]],
    [[0x4745ca838285f019, 0x21ac10a3d5f096ef, 0x40a0c2dce041fba9, 0x2522b60f4ea33076], [0x8ce16c235572575b, 0x3418cad4f52b6c3f, 0x5255075ddc957f83, 0x23f0bee001b1029d], [0x66d9401093082d59, 0x5d142633e9df905f, 0xcaac2d44555ed568, 0x2bc1ae8b8ddbb81f]],
    [[0x8011fcd6ad72205f, 0x62371273a07b1fc9, 0x7304507b8dba3ed1, 0x0f9406b8296564a3], [0xcb126c8cd995f0a8, 0x17e75b174a52ee4a, 0x67b72998de90714e, 0x2360a8eb0cc7defa], [0x6dcbbc2767f88948, 0xb4815a5e96df8b00, 0x804c803cbaef255e, 0x15871a5cddead976]],
    [[0x4f957ccdeefb420f, 0x362f4f54f7237954, 0x0a8652dd2f3b1da0, 0x193a56766998ee9e], [0xe4309805e777ae0f, 0x3b2e63c8ad334834, 0x2f9be56ff4fab170, 0x2a394a43934f8698], [0xb4166e8876c0d142, 0x892cd11223443ba7, 0x3e8b635dcb345192, 0x1859954cfeb8695f]],
    [[0x408d3819f4fed32b, 0x2b11bc25d90bbdca, 0x013444dbcb99f190, 0x04e1181763050e58], [0x1f5e5552bfd05f23, 0xb10eb82db08b5e8b, 0x40c335ea64de8c5b, 0x0fdb253dee83869d], [0xa9d7c5bae9b4f1c0, 0x75f08686f1c08984, 0xaa4efb623adead62, 0x058cbe8a9a5027bd]],
    [[0xd15228b4cceca59a, 0x23b4b83bef023ab0, 0x497eadb1aeb1f52b, 0x1382edce9971e186], [0xe1e6634601d9e8b5, 0x7f61b8eb99f14b77, 0x0819ca51fd11b0be, 0x03464990f045c6ee], [0xaa5bc137aeb70a58, 0x6fcab4605db2eb5a, 0xfff33b41f98ff83c, 0x23f7bfc8720dc296]],
    [[0x19636158bbaf62f2, 0x18c3ffd5e1531a92, 0x7e6e94e7f0e9decf, 0x0a59a158e3eec211], [0xf4c23ed0075fd07b, 0xe2c4eba065420af8, 0xb58bf23b312ffd3c, 0x06ec54c80381c052], [0x962f0ff9ed1f9d01, 0xb09340f7a7bcb1b4, 0x476b56648e867ec8, 0x118872dc832e0eb5]],
    [[0x95e1906b520921b1, 0x52e0b0f0e42d7fea, 0x5ad5c7cba7ad59ed, 0x13d69fa127d83416], [0xfd8a49f19f10c77b, 0xde143942fb71dc55, 0x70b1c6877a73d21b, 0x169a177f63ea6812], [0xfb7e9a5a7450544d, 0x3abeb032b922f66f, 0xef42f287adce40d9, 0x04ef51591c6ead97]],
    [[0xd5f45ee6dd0f69ec, 0x19ec61805d4f03ce, 0x0ecd7ca703fb2e3b, 0x256e175a1dc07939], [0xa002813d3e2ceeb2, 0x75cc360d3205dd2d, 0xe5f2af412ff6004f, 0x30102d28636abd5f], [0x1fd31be182fcc792, 0x0443a3fa99bef4a3, 0x1c0714bc73eb1bf4, 0x10998e42dfcd3bbf]],
    [[0xecad76f879e36860, 0x9f3362eaf4d582ef, 0x25fa7d24b598a1d8, 0x193edd8e9fcf3d76], [0xf2664d7aa51f0b5d, 0xd1c7a561ce611425, 0xd0368ce80b7b3347, 0x18168afd34f2d915], [0x29e2e95b33ea6111, 0xa328ec77bc33626e, 0x0c017656ebe658b6, 0x29383c01ebd3b6ab]],
    [[0x00bf573f9010c711, 0x702db6e86fb76ab6, 0xa1f4ae5e7771a64a, 0x10646d2f2603de39], [0x64d0242dcb1117fb, 0x2f90c25b40da7b38, 0xf575f1395a55bf13, 0x0beb5e07d1b27145], [0xdffbf018d96fa336, 0x30f95bb2e54b59ab, 0xdc0d3ecad62b5c88, 0x16d685252078c133]],
    [[0xfd672dd62047f01a, 0x0a555bbbec21ddfa, 0x3c74154e0404b4b4, 0x0a6abd1d833938f3], [0x70a6f19b34cf1860, 0xb12dffeec4503172, 0x8ea12a4c2dedc8fe, 0x1a679f5d36eb7b5c], [0xfbc7592e3f1b93d6, 0x26a423eada4e8f6f, 0x3974d50e0ebfde47, 0x0980fb233bd456c2]],
    [[0x03ebacb5c312c72b, 0xcece3d5628c92820, 0xbf1810af93a38fc0, 0x161b42232e61b84c], [0xd09203db47de1a0b, 0x493f09787f1564e5, 0x950f7d47a60d5e6a, 0x0ada10a90c7f0520], [0xb50ddb9af407f451, 0xd3f07a8a2b4e121b, 0x320345a29ac4238e, 0x1a730d372310ba82]],
    [[0xfbda10ef58e8c556, 0x908377feaba5c4df, 0x817064c369dda7ea, 0x2c8120f268ef054f], [0x6e7b8649a4968f70, 0xb930e95313bcb73e, 0xa57c00789c684217, 0x1c7c8824f758753f], [0xb47b27fa3fd1cf77, 0xf400ad8b491eb3f7, 0x8e39e4077a74faa0, 0x2cd9ed31f5f8691c]],
    [[0x854ae23918a22eea, 0xa5e022ac321ca550, 0xcf60d92f57618399, 0x23ff4f9d46813457], [0xdff1ea58f180426d, 0xaf5a2c5103529407, 0xceece6405dddd9d0, 0x09945a5d147a4f66], [0x8a6dd223ec6fc630, 0x7c7da6eaa29d3f26, 0xb67660c6b771b90f, 0x188d9c528025d4c2]],
    [[0xe0c0d8ddf4f0f47f, 0xdba7d926d3633595, 0x81f68311431d8734, 0x3050e37996596b7f], [0x9d829518d30afd78, 0x6ceae5461e3f95d8, 0x1600ca8102c35c42, 0x15af1169396830a9], [0x04284da3320d8acc, 0xdae933e351466b29, 0xa06d9f37f873d985, 0x1da6d09885432ea9]],
    [[0xe546ee411ddaa9cb, 0x4e4fad3dbe658945, 0xf5f8acf33921124e, 0x2796ea90d269af29], [0x7cb0319e01d32d60, 0x1e15612ec8e9304a, 0x0325c8b3307742f0, 0x202d7dd1da0f6b4b], [0xa29dace4c0f8be5f, 0xa2d7f9c788f4c831, 0x156a952ba263d672, 0x096d6790d05bb759]],
    [[0x63798cb1447d25a4, 0x438da23ce5b13e19, 0x83808965275d877b, 0x054efa1f65b0fce2], [0x64ccf6e18e4165f1, 0xd8aa690113b2e148, 0xdb3308c29802deb9, 0x1b162f83d917e93e], [0xc5ceb745a0506edc, 0xedfefc1466cc568e, 0xfd9f1cdd2a0de39e, 0x21e5241e12564dd6]],
    [[0x7b4349e10e4bdf08, 0xcb73ab5f87e16192, 0x226a80ee17b36abe, 0x1cfb5662e8cf5ac9], [0x29c53f666eb24100, 0x2c99af346220ac01, 0xbae6d8d1ecb373b6, 0x0f21177e302a771b], [0xbcef7e1f515c2320, 0xc4236aede6290546, 0xaffb0dd7f71b12be, 0x1671522374606992]],
    [[0xd419d2a692cad870, 0xbe2ec9e42c5cc8cc, 0x2eb4cf24501bfad9, 0x0fa3ec5b9488259c], [0x85e8c57b1ab54bba, 0xd36edce85c648cc0, 0x57cb266c1506080e, 0x193c0e04e0bd2983], [0xce14ea2adaba68f8, 0x9f6f7291cd406578, 0x7e9128306dcbc3c9, 0x102adf8ef74735a2]],
    [[0x40a6d0cb70c3eab1, 0x316aa24bfbdd23ae, 0xe2a54d6f1ad945b1, 0x0fe0af7858e49859], [0xe8a5ea7344798d22, 0x2da5f1daa9ebdefd, 0x08536a2220843f4e, 0x216f6717bbc7dedb], [0xf88e2e4228325161, 0x3c23b2ac773c6b3e, 0x4a3e694391918a1b, 0x1da55cc900f0d21f]],
];
pub static BN_MDS: [[[u64; 4]; 3]; 3] = [
    [[0xfedb68592ba8118b, 0x94be7c11ad24378b, 0xb2b70caf5c36a7b1, 0x109b7f411ba0e4c9], [0xd6c64543dc4903e0, 0x9314dc9fdbdeea55, 0x6ae119424fddbcbc, 0x16ed41e13bb9c0c6], [0x791a93b74e36736d, 0xf706ab640ceb247b, 0xf617e7dcbfe82e0d, 0x2b90bba00fca0589]],
    [[0xd62940bcde0bd771, 0x2cc8fdd1415c3dde, 0xb9c36c764379dbca, 0x2969f27eed31a480], [0x29b2311687b1fe23, 0xb89d743c8c7b9640, 0x4c9871c832963dc1, 0x2e2419f9ec02ec39], [0xc8aacc55a0f89bfa, 0x148d4e109f5fb065, 0x97315876690f053d, 0x101071f0032379b6]],
    [[0x326244ee65a1b1a7, 0xe6cd79e28c5b3753, 0x0d5f9e654638065c, 0x143021ec686a3f33], [0xb16cdfabc8ee2911, 0xd057e12e58e7d7b6, 0x82a70eff08a6fd99, 0x176cc029695ad025], [0x73279cd71d25d5e0, 0xa644470307043f77, 0x17ba7fee3802593f, 0x19a3fc0a56702bf4]],
];
pub static BN_MDS_INV: [[[u64; 4]; 3]; 3] = [
    [[0x7dfea07d03f82f26, 0x879a5f36b4ba6dd1, 0xb6465d69d3e12806, 0x203d1d351372bf15], [0x6e320628bb032c22, 0x48e42ce2096b3a1d, 0x4b6ad7fe4620063d, 0x29b6537218615bcb], [0x1e2a35a958b93a6a, 0x54f51f711623515b, 0xb51bd377d7bb55c0, 0x11551257de3d4b5a]],
    [[0xdd1319814f833b54, 0xbf0dc3bc4fb62798, 0x3d569912c20f1f82, 0x29dedb1bbf80c886], [0x24ca8a66304e3849, 0xbe0367fec1575cb1, 0xd66c7251dc8f56fb, 0x130b59143f4e340c], [0x108476d2eeda95f9, 0x248c8d6d3b16d4b4, 0x6087842fb62521a3, 0x0c2808c9533e2c52]],
    [[0xd2889dc145c61609, 0x29e1387e706cf0de, 0x91706fe09af22cfd, 0x0173249a1c9eac25], [0xd2e5fb5138e59350, 0xd16270b0238f3063, 0xc82e03ec3cee0cf1, 0x0abc7f158780841e], [0x5413af26963b4700, 0xe9f2478c2f28ee94, 0x8305505aaf3b497f, 0x1738a318c8631b6e]],
];
pub static PASTA_RC: [[[u64; 4]; 3]; 64] = [
    [[0x57538c2596426303, 0x4e71162f31003b70, 0x353f628f76d110f3, 0x360d7470611e473d], [0xbdb74213bf63188b, 0x4908ac2f12ebe06f, 0x5dc3c6c5febfaa31, 0x2bab94d7ae222d13], [0x0939d92753cc5dc8, 0xef77e7d736766c5d, 0x2bf03e1a29aa871f, 0x150c93fef652fb1c]],
    [[0x14259dce537782b2, 0x03cc0a60141e894e, 0x955d55db56dc57c1, 0x3270661e68928b3a], [0xce9fb9ffc345afb3, 0xb407c370f2b5a1cc, 0xa0b7afe4e2057299, 0x073f116f04122e25], [0x8ebad76fc71554d8, 0x55c9cd2061ae93ca, 0x7affd09c1f53f5fd, 0x2a32ec5c4ee5b183]],
    [[0x2d8ccbe292efeead, 0x634d24fc6e2559f2, 0x651e2cfc740628ca, 0x270326ee039df19e], [0xa068fc37c182e274, 0x8af895bce012f182, 0xdc100fe7fcfa5491, 0x27c6642ac633bc66], [0x9ca18682e26d7ff9, 0x710e1fb6ab976a45, 0xd27f57396989129d, 0x1bdfd8b01401c70a]],
    [[0xc832d824261a35ea, 0xf4f6fb3f9054d373, 0x14b9d6a9c84dd678, 0x162a14c62f9a89b8], [0xf79824667b5b6bec, 0xac0a1fc71e2cf0c0, 0x2af6f79e3127feea, 0x2d193e0f76de586b], [0x5d0bf58dc8a4aa94, 0x4feff82984990ff8, 0x81696ef1104e674f, 0x044ca3cc4a85d73b]],
    [[0x6198785f0cd6b9af, 0xb8d9e2d4f314f46f, 0x1d0453416d3e235c, 0x1cbaf2b371dac6a8], [0x343e07610f3fede5, 0x293c4ab038fdbbdc, 0x0e6c49d061b6b5f4, 0x1d5b2777692c205b], [0xf60e971b8d73b04f, 0x06a9adb0c1e6f962, 0xaa30535bdd749a7e, 0x2e9bdbba3dd34bff]],
    [[0x035a13661f22418b, 0xde40fbe26d047b05, 0x8bd5bae36969299f, 0x2de11886b18011ca], [0xbc998884ba96a721, 0x2ab9395c449be947, 0x0d5b4a3f1841dcd8, 0x2e07de1780b8a70d], [0x825e4c2bb74925ca, 0x250440a99d6b8af3, 0xbbdb63dbd52dad16, 0x0f69f1854d20ca0c]],
    [[0x816c059422dc705e, 0x6ce5113507f96de9, 0x0d135dc639fb09a4, 0x2eb1b25417fe1767], [0xb8b1bdf4953bd82c, 0xff36c661d26cc42d, 0x8c24cb44c3fab48a, 0x115cd0a0643cfb98], [0xde801612311d04cd, 0xbb57ddf14e0f958a, 0x066d7378b999868b, 0x26ca293f7b2c462d]],
    [[0xf5209d14b24820ca, 0x0f160bf9f71e967f, 0x2a830aa162412cd9, 0x17bf1b93c4c7e01a], [0x05c86f2e7dc293c5, 0xe03c0354bd8cfd38, 0xa24f8456369c85df, 0x35b41a7ac4f3c571], [0x72ac156af435d09e, 0x64e14d3beb2dddde, 0x435927994849bea9, 0x3b1480080523c439]],
    [[0x271618d874b14c6d, 0x08e286442a2d3eb2, 0x4950856dc907d575, 0x2cc6810031dc1b0d], [0x91f318c09f0cb566, 0x9e517aa93b78341d, 0x059618e2afd2ef99, 0x25bdbbeda1bde8c1], [0xc6313487073f7f7b, 0x2a5ed0a27b61926c, 0xb95f33c25dde8ac0, 0x392a4a8758e06ee8]],
    [[0xe7bbcef02eb5866c, 0x5e6a6fd15db89365, 0x9aa6111f4de00948, 0x272a55878a08442b], [0x9b925b3c5b21e0e2, 0xa6ebba011694dd12, 0xefa13c4e60e26239, 0x2d5b308b0cf02cdf], [0xef38c57c311673ac, 0x44dff42f18b46c56, 0xdd5d293d72e2e5f2, 0x16549fc6af2f3b72]],
    [[0x9b7126d9b46860df, 0x7639826534420311, 0xfa69c3a2ad52f76d, 0x1b10bb7a82afce39], [0x90d27f6a00b7dfc8, 0xd1b36968ba0405c0, 0xc79c2df7dc98a3be, 0x0f1e7505ebd91d2f], [0xff457756b819bb20, 0x797fd6e3f18eb1ca, 0x537a7497a3b43f46, 0x2f313faf0d3f6187]],
    [[0xf0bc3e732ecb26f6, 0x5cad11ebf0f7ceb8, 0xfa3ca61c0ed15bc5, 0x3a5cbb6de450b481], [0x865527cbca915982, 0x51baa6e20f892b62, 0xd92086e253b439d6, 0x3dab54bc9bef688d], [0x368045acf2b71ae3, 0x4c24b33b410fefd4, 0xe280d31670123f74, 0x06dbfb42b979884d]],
    [[0xa7fc32d22f18b9d3, 0xb8d2de72e3d2c9ec, 0xc6f039ea1973a63e, 0x068d6b4608aae810], [0x2b5dfcc5572555df, 0xb868a7d7e1f1f69a, 0x0ee258c9b8fdfccd, 0x366ebfafa3ad381c], [0xe6bc229e95bc76b1, 0x7ef66d89d044d022, 0x04db3024f41d3f56, 0x39678f65512f1ee4]],
    [[0xe534c88fe53d85fe, 0xcf82c25f99dc01a4, 0xd58b7750a3bc2fe1, 0x21668f016a8063c0], [0x4bef429bc5331608, 0xe34dea56439fe195, 0x1bc749363e98a768, 0x39d00994a8a5046a], [0x770c956f60d881b3, 0xb163d41605d39f99, 0x6b203bbe12fb3425, 0x1f9dbdc3f8431263]],
    [[0x9794a9f7c336eab2, 0xbe0bc829fe5e66c6, 0xe5f17b9e0ee0cab6, 0x027745a9cddfad95], [0x52025657abd8aee0, 0x2fa43fe20a45c78d, 0x788d695c61e93212, 0x1cec0803c504b635], [0xd3872a9559a03a73, 0xed5082c8dbf31365, 0x72077448ef87cc6e, 0x123523d75e9fabc1]],
    [[0x001779e3a1d357f4, 0x27feba35975ee7e5, 0xf419b848e5d694bf, 0x1723d1452c9cf02d], [0x9dab1ee4dcf96622, 0x21c3f776f572836d, 0xfcc0573d7e613694, 0x1739d180a16010bd], [0x70290452042d048d, 0xfafa96fbeb0ab893, 0xacce32391794b627, 0x2d4e6354da9cc554]],
    [[0x670bcf6f8b485dcd, 0x8f3bd43f99260621, 0x4a869553c9d007f8, 0x153ee6142e535e33], [0xd258d2e2b7782172, 0x968ad4424af83700, 0x635ef7e7a430b486, 0x0c45bfd3a69aaa65], [0x0e5633d251f73307, 0x6897ac0a8ffa5ff1, 0xf2d56aec83144600, 0x0adfd53b256a6957]],
    [[0xac9d36a8b7516d63, 0x3f87b28f1c1be4bd, 0x8cd1726b7cbab8ee, 0x315d2ac8ebdbac3c], [0x299ce44ea423d8e1, 0xc9bb60d1f6959879, 0xcfaec23d2b16883f, 0x1b8472712d02eef4], [0xc4a5404198adf70c, 0x367d2c54e36928c9, 0xbd0b70fa2255eb6f, 0x3c1cd07efda6ff24]],
    [[0xbbe523aef9ab107a, 0x4a16073f738f7e0c, 0x687f4e51b2e1dcd3, 0x136052d26bb3d373], [0x676c36c24ef967dd, 0x7b3cfbb873032681, 0xc1bdd859a1232a1d, 0x16c96beef6a0a848], [0x067eec7f2d6340c4, 0x012387bab4f1662d, 0x2ab7fed8f499a9fb, 0x284b38c57ff65c26]],
    [[0xaf1dff204c922f86, 0xfc06772c1c0411a6, 0x39e242198897d17c, 0x0c5993d175e81f66], [0xbbf53f67b1f87b15, 0xf24887ad48e17759, 0xfcda655d1ba9c8f9, 0x03bf7a3f7bd043da], [0x9b5cd09e36d8be62, 0x4c8f9cbe69f0e827, 0xb0cf999567f00e73, 0x3188fe4ee9f9fafb]],
    [[0xafea99a2ec6c595a, 0x3af5bf77c1c42652, 0x5a39768c480d61e1, 0x171f528ccf658437], [0x5a0563b9b8e9f1d5, 0x812c3286ee700067, 0x196e41859b35ef88, 0x12f4175c4ab45afc], [0x0e74d4d369118b79, 0x7e23e1aabe96cfab, 0x8f8fdcf800a9ac69, 0x3a509e155cb7ebfd]],
    [[0x98712c65678cfd30, 0x984bc8f2e4c1b69e, 0x1a89920e2504c3b3, 0x10f2a685df4a27c8], [0xe8a16728cc9d4918, 0x54573c9333c56321, 0x1d8d93d54ab91a0e, 0x09e5f49790c8a0e2], [0x609a740347cf5fea, 0x42d17ed6ee0fab7e, 0x2bf35705d9f84a34, 0x352d69bed80ee3e5]],
    [[0x3a758af6fa84e0e8, 0xc634debd281b76a6, 0x491562faf2b190d3, 0x058ee73ba9f3f293], [0x621a132510a43904, 0x092cb92119bc76be, 0xcd0f1fc55b1a3250, 0x232f99cc911eddd9], [0xc3b97c1e301bc213, 0xf9efd52ca6bc2961, 0x86c22c6c5d4869f0, 0x201beed7b8f3ab81]],
    [[0xbf6b3431ba94e9bc, 0x29388842744a1210, 0xa1c9291d58602f51, 0x1376dce6580030c6], [0x6454843c5486d7b3, 0x072ba8b02d92e722, 0x2b3356c38238f761, 0x1793199e6fd6ba34], [0x06a3f1d3b433311b, 0x3c66160dc62aacac, 0x9fee9c20c87a67df, 0x22de7a7488dcc735]],
    [[0x30d6e3fd516b47a8, 0xdbe0b77fae77e1d0, 0xdf8ff37fe2d8edf8, 0x3514d5e9066bb160], [0x19377427137a81c7, 0xff453d6f900f144a, 0xf919a00dabbf5fa5, 0x30cd3006931ad636], [0x5b6a74220692b506, 0x8f9e4b2cae2ebb51, 0x41f81a5cf613c8df, 0x253d1a5c52934127]],
    [[0x73f666cb86a48e8e, 0x851b3a59c990fafc, 0xa35e9613e7f5fe92, 0x035b461c02d79d19], [0x7cfbf86a3aa04780, 0x92b1283c2d5fccde, 0x5bc00eedd56b93e0, 0x23a9928079d175bd], [0xf1e4ccd73fa00a82, 0xb5e2ea3436eef957, 0xf1594a0763c611ab, 0x13a7785ae134ea92]],
    [[0xbbf04f5252de4279, 0x3889c57863446d88, 0x4962ae3c0da17e31, 0x39fce308b7d43c57], [0x3b57e34489b53fad, 0xbef00a08c6ed38d2, 0xc0fdf01662f60d22, 0x1aae18833f8e1d3a], [0x55513e033398513f, 0x27c1b3fd8f85d8a8, 0x8b2e80c064fd83ed, 0x1a761ce82400af01]],
    [[0x5244ca749b73e481, 0xdcf6af2830a50287, 0x16dd1a87ca22e1cc, 0x275a03e45adda7c3], [0x58a253cfb6a95786, 0x07e561453fc5648b, 0xeb08e47e5feabcf8, 0x2e5a10f08b5ab8bb], [0xe033d82cefe78ce3, 0xc141a5b6d594bec4, 0xb84e9c333b2932f1, 0x1459cb8587208473]],
    [[0x5cec7e7b338fbe1b, 0x52f9332fbffcfbbd, 0x7b92ce810e14a400, 0x193ae5921d78b5de], [0x60224be67248e82c, 0x374384f4a0728205, 0x89111fb2c4660281, 0x3097898a5d0011a4], [0x549980de862930f5, 0x1979b2d1c465b4d9, 0x571782fd96ce54b4, 0x378d97bf8c864ae7]],
    [[0x37ea32a971d17884, 0xdbc7f5cb46093421, 0x88136287ce376b08, 0x2eb04ea7c01d97ec], [0xead3726f1af2e7b0, 0x861cbda476804e6c, 0x2302a1c22e49baec, 0x36425347ea03f641], [0xecd627e59590d09e, 0x3f5b5ca5a19a9701, 0xcc996cd85c98a1d8, 0x26b72df47408ad42]],
    [[0x59bece31f0a31e95, 0xde01212ee4588f89, 0x1f05636c610b89aa, 0x130180e44e2924db], [0x9ea8e7bc79263550, 0xdf7793cc89e5b52f, 0x73275acaed5f579c, 0x219e97737d3979ba], [0x9c12635df251d153, 0x3b0672dd7d42cbb4, 0x3461363f81c489a2, 0x3cdb93598a5ca528]],
    [[0x2861ce16f219d5a9, 0x4ad0447045a7c5aa, 0x20724b927a0ca81c, 0x0e59e6f332d7ed37], [0x43b0a3fcff2036bd, 0x172cc07b9d33fbf9, 0x3d7369467222697a, 0x1b064342d51a4275], [0x3eb310228a0e5f6c, 0x78fa9fb9171221b7, 0x2f363c55b2882e0b, 0x30b82a998cbd8e8a]],
    [[0xe46f6d4298740107, 0x8ad71ea715be0573, 0x63df7a76e858a4aa, 0x23e4ab37183acba4], [0xfca995e2b59914a1, 0xacfe14640de044f2, 0x5d33094e0beda75b, 0x2795d5c5fa428022], [0xc26d909dee8b53c0, 0xa6687c3df16c8fe4, 0xd765f26dd03f4c45, 0x3001ca401e89601c]],
    [[0xe7fea6bdf3471380, 0xe84b5bebae4e501d, 0xf7bf86e89280827f, 0x0072e45cc676b08e], [0xd0c54ddeb26b86c0, 0xb64829e2d40e41bd, 0xe2abe4c518ce599e, 0x13de705484874bb5], [0x38915b432a9959a5, 0x82bb18e5af1b05bb, 0x315950f1211defe8, 0x0408a9fcf9d61abf]],
    [[0x34070cbee26886a0, 0xae4d23b0b41be9a8, 0xbb4e4a1400ccd2c4, 0x2780b9e75b55676e], [0x9405592098b4056f, 0xdc4d8fbefe24405a, 0xf80333ec85634ac9, 0x3a570d4d7c4e7ac3], [0x78d2b247899520b4, 0xe2cc1507bebdcc62, 0xf347c247fcf09294, 0x0c13cca7cb1f9d2c]],
    [[0x2e8c88f7707470e0, 0x0b50bb2eb82df74d, 0xd2614a197c6b794b, 0x14f59baa03cd0ca4], [0xbe52476e0a16f3be, 0xa51d54ede66167f5, 0x6f546e1704c39c60, 0x307defee925dfb43], [0x380b67d80473dce3, 0x661106836adfe5e7, 0x7a07e7674b5a2621, 0x1960cd511a91e060]],
    [[0x15aaf1f7712589dd, 0xb8ee335d88284cbe, 0xca2ad0fb56672500, 0x2301ef9c63ea84c5], [0x5e68478c4d6027a9, 0xc86182d1b4246b58, 0xd10f4cd52be97f6b, 0x029a5a47da79a488], [0x2cc4f962eaae2260, 0xf97fe46b6a925428, 0x2360d17d890e55cb, 0x32d7b16a7f11cc96]],
    [[0xc0cab915d5363d9f, 0xa5f2404cd7b35eb0, 0x18e857a98d498cf7, 0x26703e48c03b81ca], [0xf691123ae112b928, 0xf44388bd6b89221e, 0x88ac8d25a24603f1, 0x048682a35b3265bc], [0x3ab7defcb8d803e2, 0x91d6e1715164775e, 0xd72cddc6cf06b507, 0x06b1390441fa7030]],
    [[0xbcd795414a6e2e86, 0x43b360f6386a86d7, 0x1689426dce05fcd8, 0x31aa0eeb868c626d], [0xed77f5d576b99cc3, 0x90efd8f41b2078b2, 0x057abad3764c104b, 0x239464f75bf7b6af], [0xb2cb487307c1cecf, 0xa5cc47c59654b2a7, 0xa45e19ed813a54ab, 0x0a64d4c04fd426bd]],
    [[0x1f7315322f658735, 0x777c7a921a062e9d, 0x576a4ad259860fb1, 0x21fbbdbb73670734], [0x674324003fc52146, 0x5b86d29463d31564, 0xd9371ca2eb95acf3, 0x31b86f3cf01705d4], [0x7045f48aa4eb4f6f, 0x13541d65157ee1ce, 0x05ef1736d09056f6, 0x2bfde53354377c91]],
    [[0x5a13a58d20011e2f, 0xf4d5239c11d0eafa, 0xd558f36e65f8eca7, 0x1233ca936ec24671], [0x6e70af0a7a924b3a, 0x878058d0234a576f, 0xc437846d8e0b2b30, 0x27d452a43ac7dea2], [0xa02576b94392f980, 0x6a30641a1c3d87b2, 0xe816ea8da493e0fa, 0x2699dba82184e413]],
    [[0x608c6f7a61b56e55, 0xf18584664f8cab49, 0xc3988baee42e4b10, 0x36c722f0efcc8803], [0x6e49ac170dbb7fcd, 0x85c38899a7b5a833, 0x08b0f2ec89ccaa37, 0x02b3ff48861e339b], [0xa8c5ae03ad98e405, 0x6fc3ff4c49eb59ad, 0x60162f4427bc657b, 0x0b70d061d58d8a7f]],
    [[0x2e06cc4af33b0a06, 0xad3de8be46ed9693, 0xf8753adeb9d7cee2, 0x3fc2a13f127f96a4], [0xc12080ac117ee15f, 0x00cb3d621e171d80, 0x1bd63434ac8c419f, 0x0c41a6e48dd23a51], [0x9685213e9692f5e1, 0x72aaad7e4e75339d, 0xed4476537169084e, 0x2de8072a6bd86884]],
    [[0x0ad01184567b027c, 0xb81cf735cc9c39c0, 0x9d3496a3d9fe05ec, 0x03557a8f7b38a17f], [0x45bcb5ac00826abc, 0x060f43363d818e54, 0xee976d34282f1a37, 0x0b5f59552f498735], [0x2f2909e17e22b0df, 0xf5d646e57507e548, 0xfedbb18570dc7300, 0x0e2923a5fee7b878]],
    [[0xf71eed73f15b3326, 0xcf1cb37c3b032af6, 0xc787be97020a7fdd, 0x1d785005a7a00592], [0x0acfbfb223f8f00d, 0xa590b88a3b060294, 0x0ba5fedcb8f25bd2, 0x1ad772c273d9c6df], [0xc1ce13d60f2f5031, 0x810510eb61f0672d, 0xa78f3275c278234b, 0x027bd64785fcbd2a]],
    [[0x8337f5e07923a853, 0xe224313469457b8e, 0xce6f8ffea1031b6d, 0x20800f441b4a0526], [0xa33d7bed89a4408a, 0x36cdc8eed662ad37, 0x6eea2cd49f4312b4, 0x3d5ad61d7b65f938], [0x3bbbae94cc195284, 0x1df96cc03ea4b26d, 0x02c5f91be4dd8e3d, 0x13338bc351fc46dd]],
    [[0xc5271c297852819e, 0x646c49f9b46cbf19, 0xb87db1e2af3ea923, 0x25e52be507c92760], [0x5c380ab701b52ea9, 0xa34c83a3485c6b2d, 0x71096d8b1b983c98, 0x1c492d64c157aaa4], [0xa20c0b3da0da4ca3, 0xd43487bc288df682, 0xf4e6c5e7a573f592, 0x0c5b801579992718]],
    [[0x7ea33c93e40833cf, 0x584e9e62a7f9554e, 0x68695c0cd7cbf43d, 0x1090b1b4d2bebe7a], [0xe383e1ec3baa8d69, 0x1b218e35ecf2328e, 0x68f5ce5cbed19cad, 0x33e38018a801387a], [0xb76b0b3d787ee953, 0x5f4a02d28729e3ae, 0xeef8d83d0e876bac, 0x1654af18772b2da5]],
    [[0xef7ce6a013265477, 0xbb0893870367ec6c, 0x44742de88c5ab0d5, 0x1678be3cc9c67993], [0xaf5d47893348f766, 0xdaf1818355b13b4f, 0x7ff9c6be546e928a, 0x3780bd1e01f34c22], [0xa12380320d7cc1de, 0x5d11e69aa6c0b98c, 0x0786018e7cb77267, 0x1e83d6315c9f125b]],
    [[0x1799603e855ce731, 0xc486894d76e0c33b, 0x160b41552f2931c8, 0x354afd0a2f9d0b26], [0x8b997ee06be1bff3, 0x60b00dbe1faced07, 0x2d8affa62905c5a5, 0x00cd6d29f166eadc], [0x08d0641917082f2c, 0xc60d01973f183057, 0xdbe0e3d7cdbc66ef, 0x1d6219352768e3ae]],
    [[0xfa08dd9806387577, 0xafe3ca1db8d4f529, 0xe48d2370d7d1a142, 0x146336e25db5181d], [0xa901d3ce84de0ad4, 0x022e54b49c13d907, 0x997a21163e2e43df, 0x0005d8e085fd72ee], [0x1c36f31341964484, 0x6f8ebc1d2296021a, 0x0dd5e61c8a4e8642, 0x364e97c7a3893227]],
    [[0xd7a00c03d2e0baaa, 0xfa97ec80ad307a52, 0x561c6fff15346878, 0x01189910671bc16b], [0x63fd8ac57a95ca8c, 0x4c0f7e001df490aa, 0x5229dfaa01231a45, 0x162a7c80f4d2d12e], [0x32e69efb22f40b96, 0xcaff31b4fda32124, 0x2604e4afb09f8603, 0x2a0d6c09576666bb]],
    [[0xc0a0180f8cbfc0d2, 0xf444d10d63a74e2c, 0xe16a4d603d5a808e, 0x0978e5c51e1e5649], [0x03f4460ebc351b6e, 0x05087d903bdacfd1, 0xebe19bbdce251011, 0x1bdcee3aaca9cd25], [0xf61964bf3ade7670, 0x0c947321e0075e3f, 0xe49479140b1944fd, 0x1862cccb70b5b885]],
    [[0xc3267da6e94adc50, 0x39ee99c1cc6e5dda, 0xbc26cc883a1987e1, 0x1f3e91d863c16922], [0x0f85b4ac2c367406, 0xfa661465c656ad99, 0xef5c08f8478f663a, 0x1af47a48a6016a49], [0x0eabcd87e7d01b15, 0x1c3698b0a2e3da10, 0x009d57338c693505, 0x3c8ee901956e3d3f]],
    [[0x8b94772189673476, 0xe10ce2b7069f4dbd, 0x68d0b024f591b520, 0x1660a8cde7fec553], [0x9d8d0f67fdaa79d5, 0x3963c2c1f5586e2f, 0x1303936334dd1132, 0x0f6d991929d5e4e7], [0x7a433091e1ce2d3a, 0x4e7fda770712f343, 0xcc625eaaab52b4dc, 0x02b9cea1921cd9f6]],
    [[0x3797b2d8376043b3, 0xd8caf468976f0472, 0x214f7c6784acb565, 0x14a323b99b900331], [0x347fef2c00f0953a, 0x718b7fbc7788af78, 0xec01ea79642d5760, 0x190476b580cb9277], [0xff4e7e6fb268dfd7, 0x9660902b60087651, 0xa42463d30b442b6f, 0x090a3a9d869d2eef]],
    [[0xf983387ea0456203, 0xe365001304f9a11e, 0x0dbe8fd2270a6795, 0x3877a95586367567], [0x39c0af0fe01f4a06, 0x60118c53a2181352, 0x5df39a2cc63ddc0a, 0x2d894691240fe953], [0x1aca9eaf9bba9850, 0x5914e855eeb44aa1, 0x7ef7178020166189, 0x21b9c18292bdbc59]],
    [[0x33f509a74ad9d39b, 0x272e1cc6c36a2968, 0x505a05f2a6ae834c, 0x2fe76be7cff723e2], [0x0df9fa97277fa8b4, 0xd15bff840ddae8a5, 0x929981d7cfce253b, 0x187aa448f391e3ca], [0xf0c66af5ffc73736, 0x663ccf7b2ffe4b5e, 0x007ab3aa3617f422, 0x0b7083ad751707bf]],
    [[0x2f9b20f1fbd49791, 0x1975b962f6cb8e0b, 0x3bc4ca9902c52acb, 0x030ddbb470493f16], [0x3a1c62ca8fbf2525, 0x8fb8ab9d60ea17b2, 0x950b0ab18d3546df, 0x3130fbaffb5aa82a], [0x43a876180dc382e0, 0x15ce2ead2fcd051e, 0x4f74d74bac2ee457, 0x337f544707c430f0]],
    [[0x26de98a8736d1d11, 0x7d8e471a9fb95fef, 0xac9d91b0930dac75, 0x349979919015394f], [0xccfcb61831d5c775, 0x3bf93da6fff31d95, 0x2305cd7a921ec5f1, 0x027cc4efe3fb35dd], [0xc3fa2629635d27de, 0x67f1c6b7314764af, 0x61b71a3698682ad2, 0x037f9f2365954c5b]],
    [[0x77c5b024848371ae, 0x60414abe362d01c9, 0x10f1cc6df8b4bcd7, 0x1f697cac4d07feb7], [0x786add244aa0ef29, 0x3145c478063109d6, 0x26e6c851fbd572a6, 0x267a750fe5d7cfbc], [0x180e2b4d3e756f65, 0xaf285fa82ce4fae5, 0x678c9996d9a472c8, 0x0c91feab4a43193a]],
    [[0x79c47c573ac410f7, 0x7e3b83af4a4ba3ba, 0x2186c3038ea05e69, 0x1745569a0a3e3014], [0x1e0388522696191f, 0xfdff66c6f3b5ffe1, 0xeca5120778a56711, 0x29863d546e7e7c0d], [0x2f225e6366bfe390, 0xa79a03df833994c6, 0xbf06bae49ef853f6, 0x1148d6ab2bd00192]],
    [[0xf4f6331a8b265d15, 0xf745f45d350d41d4, 0xe18b1499060da366, 0x02e0e121b0f3dfef], [0x078ae6aa151054b7, 0x690401736d44a653, 0xb89ef73a40a2b274, 0x0d0aa46e76a6a278], [0x9a4d532c7b6e0958, 0x392dde710f1f06db, 0xeee545f3fa6d3d08, 0x13943675b04aa986]],
    [[0x961fc818dcbb66b5, 0xc9f2b3257530dafe, 0xd97a11d63088f5d9, 0x2901ec61942d34aa], [0xfdf544b963d1fdc7, 0x22ffa2a2af9fa3e3, 0xf431d54434a3e0cf, 0x20204a2105d22e7e], [0x1211b9e2190d6852, 0xa004abe8e01528c4, 0x5c1e3e9e27a571c3, 0x3a8a628295121d5c]],
];
pub static PASTA_MDS: [[[u64; 4]; 3]; 3] = [
    [[0x323f2486d7e11b63, 0x97d7a0ab23850b56, 0xb3d59fbdc8c9ead4, 0x0ab5e5b874a68de7], [0x8eca5596e996ab5e, 0x240d4a7cbf735736, 0x293f0f0d886c7954, 0x31916628e58a5abb], [0x19d1cf25d8e8345d, 0xa0a3b71a5fb15735, 0xd803952bbb364fdf, 0x07c045d5f5e9e5a6]],
    [[0xd049cdc8d085167c, 0x3a0a464048bd770a, 0xf8e24f66822c2d9f, 0x233162630ebf9ed7], [0x402270113e047a2e, 0x78f8365c85bbab07, 0xb36664548d60957d, 0x25cae2599892a8b0], [0xf84d806f685f747a, 0x9aad3d8262efd83f, 0x74938717989a1957, 0x22f5b5e1e6081c97]],
    [[0xfee7a9944f84dbe4, 0x21680eabc56bc15d, 0xf333aa91c3833464, 0x2e29dd59c64b1037], [0xc771effa43263664, 0xcbeaf48b3a0624c3, 0x92d15e7dceef1665, 0x1d1aab4ec1cd6788], [0x15639415f6e85ef1, 0x75872c39b59a31f6, 0x51e0cbead65516b9, 0x3bf763086a189364]],
];
pub static PASTA_MDS_INV: [[[u64; 4]; 3]; 3] = [
    [[0xc6de463cd1404e6b, 0x4543705f35e98ab5, 0xcc59ffd00de86443, 0x2cc057f3fa14687a], [0x171840417cab7576, 0xfadbf8ae7ae24796, 0x5fd72b55df208385, 0x32e7c439f2f967e5], [0x942645bd7d4464e0, 0x1403db6f50302040, 0xf461778abf6c91fa, 0x2eae5df8c3115969]],
    [[0xa1ca1516a4a1a6a0, 0x13f074fde9a18b29, 0xdb18b4aefe68d26d, 0x07bf368481067199], [0xe82425bc1b23a059, 0xbb1d65040c85c1bf, 0x018a918b9dac5dad, 0x2aec6906c63f3cf1], [0xe0541adf238e0781, 0x76b2a7139db71b36, 0x1215944a64a246b2, 0x0952e0243aec2af0]],
    [[0x2a418d8d73a7c908, 0xaef9112e952fdbb5, 0x723a63a0c09dab26, 0x2fcbba6f9159a219], [0x76efab42d4fba90b, 0xc5e4960d7424cd37, 0xb4ddd4b4d6452256, 0x1ec7372574f3851b], [0xadc8933c6f3c72ee, 0x87a7435d30f8be81, 0x3c26fa4b7d25b1e4, 0x0d0c2efd6472f12a]],
];
