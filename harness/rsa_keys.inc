// RSA private keys (DER, hexadecimal) for the simulated programs; they protect nothing.
const char* const kRsaKeys[] = {
    "308204a20201000282010100a6e140c95eaa4e95a9c011959d8b22bed5ab0a55864ddafddde2e6b1061a86c07ab016c63f5f"
    "199c920b147aab157fa7b5f3f72730dd99b4370fb1b3403e4ae8fb0734a14aac46e1ad4a844d9df91222cbeb9c386fe5c26e"
    "6ea04b72c486aacd51234f57b09c3c59abbaa2a8e8f0993a97c7b6dd60fae2733cfeaa645bb6c977df2b0447e9afc94aa9bc"
    "cf29da96da72e002d0f3930dd00f01dc24fe7f65f3784ef66871cc61ca66bd686950d318e553a94264d2d936c9245886d8b1"
    "e488959b7fd97f85af76e3ae8b4967117cc9cc97804e52fa0a9c429be475aa524020cd4e527c6a448e19eb06c6382b2d62bd"
    "da244aa3966d56343d3ba8b690d5ac01c46f020111028201003fce98c57704e1cfcff69d4fcb4bc985339438a83ae1887020"
    "220ce955284294e39dae5adbfeb6f819b8f13df61eceed4d19842592af151f423ab4e2a79f58e09c3776016f5ffcfbef6f50"
    "b443ee4ab2f39dd9d957f5f78493b5c27eb48dd7e5177e71290ed2534f765df2e63af294f0c1902045960592d1b5706e538c"
    "7a9852dbd9a688bb49d198a37cdbcf72187d589ce0c7ce6ade8b6ecfafc9b9b1033e11ecc5f5f7db4059099c9d38d8e95dd1"
    "45284649dde42a630d71abfde1543ec17f7ba4fdfaf4fa5eae8684fba2d34cf3d92fe37c3063393d42ecd5ed959f1ac5a373"
    "8dbd25da73d60509638ae00d3a7ed59a091eb56619cb3f07994e25c57df08902818100b805648d738da6f8f5dcfbf491e1dd"
    "02d3a668fb17810ade6e41c469e979dda839bf29b9f1dd602dd138300c943d135c59f69e0fb644fa13d3edc43b29443f57a5"
    "1001eacc3f870a8fe07012ca6dc5a49628084efef3ae9b6f1f76ab97e627a6ebb06829e2171c27af1d007c32b607b3998912"
    "d7fd5173410f329b45a609e16902818100e82776061625fe24f499458ce339dcfe721084c8ede444d3af7fdad650cfe9a133"
    "cf0a2f9d173295f01edfaa7a0dd6075c1dca7ece342e7733eaf29f902a0d6c9768bdf6d8a88c656083512d7608eba731d354"
    "a2a5b069eef63a63d091f4a0c0d61e3acb5cfb3caa886598186fe4fcdf94651f9388ee18df995577f228d5e4170281802079"
    "6c18f6462c86498159a3a145f9d35286c73b5e802f18319322a94751bdb4466d075d0c907a6270371789bfce8af22dfe5820"
    "e3ee0e037fc08c0a70b1b0d33b3f0f65ab92bd7a55a013c714a9f5b3a2071086693a0fc1139c240029dd524aa2101261be7c"
    "8c7f79415a70452f2e891b18308077ff509302ae93df1d4d09a902818100a3df9e9ae2752bddd9d59a81915605685084217e"
    "c60a8aefc72d12f1a274a4ea42b0436ce75bab3ca97f34785627e25f8c5143a4cdca7b26f778ab4374d263d42ea449db6bc2"
    "44fc44207589807ec476050da52784040e8a8fb0beed9434353cd360a1f8f656fda58d74e3d503b0b27fb40b2559155cc643"
    "7b4b63b9feb51979028181008510e0d3a9163a2faa715364dafcc315e4d1bcd323af1242b1d73692cda9da4053b54a5d44c8"
    "9ea717db46f53e504195ae1b7885d99a31400808bb23d5fc9ba8b538581b9cfbecb2ba2be83a7d16b25019a4f7c3a799ce55"
    "edc0873f228a2598d15939ece8aabd826cde3ab709d675628eaf63af98da67d4904e69f1b2c49fa2",
    "308204a10201000282010100baf33a94bdc544ac443283738ad68d0184707d05be1f1b4c00414862dc5d9727c0d0f8d03103"
    "167974838bd957f07ec6defecc505ec8f82bfbb53e4779f25d60c06cf5f5c06d2c0cdcf244a9ddeb3832b6ca8cfc06d06f6d"
    "398e5e5c927d300e02acdbf43fd02f9aabc60ab1a215c6c306ee43e5d6e0b3844fdb900547f1cc123d05315c1fb49c1ee8a4"
    "ee836cdd002b509be693623320d469bbc9a0f618b7fd1e415f122c187fb3a4c651793b0888b676bfe1453732aa6f3b1709ff"
    "89a819c7256a5ca419be37812685a7c904f8444b136e2763fb12f7186311e12a7e8f577d1dead8efa93db2ccd7efe1ebcb8e"
    "17a31644b10511199224ed00a3e499eb0caf02011102820100057f9fd732c2098c989812eccf60a9cb56b803ad586a53a05a"
    "5c45e4ca3efcea94bada243dad446cfbe5c059374ad68d60e9605cb77e61a6f0d09ff30b1db773c96c9dd285a8dba6067f98"
    "9b9595fa1f9bf6e607699cb7fbaede8a4e044ef9e24b5f6fe1896801666e76c41448882b7e34e8e3e11ce87dc02077661e45"
    "e176f16d5129b77d245d9ff8af64ba46761c9a855fe02b1ec62a1816150db2014b2a570d9a07876d6dfdf0129d384939dcc4"
    "0870063cbe5e37464e95df50c7044382c80530ed4a2e1fc6efe0f1513447c170f87b95bab884b1843448fb6e0dd3653e4410"
    "c3f7cd1f8c0d487e525900218a8e3b6ee188fd1fc390193a96d3fe371cfc4d02818100f47cdea504db5fc8f00af74aac3a44"
    "f46de337fef34ac604d082228fdf113fad604fca299d0447190f97d9e11fdbfb95c4c3e75b082b95466c9e9f5798e31c2524"
    "26fd8e95f9276da17561511fa3c7c2f2457c6d63834dabee70db72797e5a68dc4bcb2d2ab274b33bef1fe6575bd4155697aa"
    "18d32d273ee7c97a7cfc531d0b02818100c3c0c8587c04cd16f14e967b64f2eeb12bfce8da5896c39caa6dd56ceb0bd8bfef"
    "7c94ec06787eb81c4cfdde6bda8401d127e8a1abafbeb8e6cfb0395fcd9f1150c3db3b638ca437a5037d865da37b87b745de"
    "74f7fc1a7ac33c67e1f19eb80a079824844df17a78d510f000ffcb5fa905b8d54e05f3478c3d2f01a44bbe6d6d02818064ab"
    "e334e3e1dc25900483f192361c64a5b7e9e1733ce820199eff2c2eacbfddfa7b352031985982ca2f77d52b3c76a714c92307"
    "5db797d1b44150ab994e75003c100e0d890c3d696099bea8eee91604fa58d8e1bf906b46cb97e1e3d7ac7f9496f2085de467"
    "9976fa8fa3b93307b1ae6ef327ec1ab83d562334d81558d6edd70281804516dd4c6801b1cbdcb2533a9c19816bb52c15f2b5"
    "dadba0b49f3c448f315b8f093b07625ca2ff8c46394a8abca779e2860e15deb510d9e6e80d110530df29152b906b7e5f5ed0"
    "8c1c1f597ab7a31c8a40af3f7493c263b2db7ebb40afa16e21a853d0a72a917684ffe7dc3c968403a511140f0c7a9219408e"
    "10972aed8e80f902818100c2019e9c70fe59fd172312672c180eaccf105e01d92aaf2c76f31c70c55c3d0bf56b18d038270f"
    "cf4632ccd36f4a5a3623d340fb172fb120100f5b09c976d39d4a5ba7d9259d94b0deb229c03851c7580c65ce14120a141673"
    "6298ae93c0df1eb561a52744cdae4d53c6217168dadbd61766c6d65e879e25960acd23aaec1fa5",
    "308206e202010002820181009f48a931cf2f434b6f13d29fdda17ae5d5e7aa020f6ea535a123e9a9138a96692caf23ae85b6"
    "97e7b54d6b86cd648528e2609e3caf871c8973e61fc09511a6e2daf2c717526d26c42ec7a11f8d6615c9a5a8892925b1a5ea"
    "afd09255f0a1c5e4992c7586d38c0262f51030e4d58ab8b3ab0b14de3772aa0331ebcbdb5d765bf9d31dea54e7ce9c3a4430"
    "672e7175679ecc6eb8a0ded6761c668509581db7053443bb204aaeb14b9812e66954e3eee7d0c887bddd0a2fcfd026abecd0"
    "3075353846a6a51537f506c35db423b6937f878ba3e3f8c1a64c3e54068ff0f593f709b26e28f838ab0f95b115d833af5f6a"
    "7f6c9512541dad1f9ea3f0d4b8e135cf6e777ea8881f5818f93a1ddb49e92d39af3def5d80a525ac0b4b0314b3c7915fcb80"
    "9529702679feeb6ab7cb5ab58be0814a7c301caad7b285afdd133dd71ae087a4676248933bdd6e4d3273e536f41ba115f306"
    "ba02eae7a9fcecb971a1aa9a54b3ce7a3d6ac624e60723b6a87eb1ead7544a433ada367924fdb026a6a04d834fc502011102"
    "8201800e0df0cfb0660d7798dc1a1d2a24d62356a37ff11f7ab4397019c1cb275f0d4583f155f8cf901c7653c311045d6ac0"
    "748c71efd82d9afafd11c17b45b2ccda04f5338a099654ecd5132fbb64aa9810fb344393a1bf8facc1e2562b07953b7357ef"
    "65ce227c13e217ca54408ca96e1f5b25ae277d04e47869b194ce3900b79eb429375870e746efaac9c8091aafa87a158a823d"
    "779b310a6beaed9ef12fcc62576f6355ac3c972c512ed8185a5058d83811b19fcfbd225619e54b67b8044693c10fa1cf23bf"
    "74b1b1f357d2ea3921b84a7424fdc726b798beda67e895b657e36d89177411b7d2e519c4481892276b1a67e56ece0ec3cf8f"
    "f8d271b5925527f7bf52a54c25bf6c2e097e8ae89cca2a56e2957d54c471c95bd7e1fe98c6f890c55e94a31c08b5c83ee82c"
    "eaa52cbd6de3b10596ad93f8f40447e3a29ca51d7ef148365cec4235eb1dac7f51e454b9740a8dc860be79b1aa933d5e38de"
    "ee8fa877117a44a263f987f47e779b1c31640f0a360d1bcc40d4c672c18862ba3dfef473930281c100b89f6851fdc6c705a9"
    "627a7d0817c890effc1b1e29936ab8bbd56e9f0d815307ff54a98d74dd65f644fbc94144763d601ca8902460b25c5555fb08"
    "7f2e35480b4ace849959450beac2ba6fbb819f74302049d089164c28deff13941e944c39e59893f392e2d3c80fd15ab6cca6"
    "eced7af648fd6a81c05af6ef7237c6de92c3a5975ecf91919d5cacf5056405723d3bb30421bb5d96c2e6bae8314e5943da39"
    "f9cf1cf0a2575e86192c420e0e620d94cf3730ef0860604e689e2cd172f1db3c830281c100dcdd66836b03b73243c3a83059"
    "3eebaee4ef4c27c5ed65d2f4cb8bb5c93c4fd107ca808d12dc0b4175ab53f5b18bc172fad74f51f69237f549d0fbe797d52e"
    "9e8b334f2f855f38e3c0fa8de7630fb7b08631ef69b075d18802bbb184a6aad4c068079430e04dafbe3eb7fe98821629f946"
    "90c55dfb24a4df846e16c0ee046acc67e658bdf1d76bfd4523bac6a165edc6ba9c8feccbece9352e039a0e0aa02a9e95a8c7"
    "060d6c37aa01415aeb3732cecb292c96486aa517590845966ebcd5a0170281c100a2e701b1c1cd826e6847d57d617e65ad0f"
    "fc9065e87303d02d43da13debd676168d23b40944ae17ef192dec11e4a3627a0d0f7a7a09d60878819bc33fb986cbeab6aed"
    "783fb564de3359356936234866b313f43cb952422e2c5c91c0a0f7f6d9a4bec7dbf551744a3131ec96752b682133a9d08b27"
    "3141343cb01318e2817f73fe085ccbbcb8067a7dd7947d46ae7ff84ef096438506531d6376cca91dc08d8211198907b68094"
    "70907684df83b1a16b8b0d0f258236dbc5b8be22383ed080af0281c040f5d2db5bb5cc78320c5ea4cef4636facbeda29d0cd"
    "5a2efcb45644867b2688c60e620b5fe65da9d750821b161a0bb867e4f93639764cb18e2e68350e89fea719e1ea1d091c01ac"
    "65ef56e9b3b95424dc2ccdf1e89b1f825b28252703d7e438971149b405bc7efbb817ff964460df2b32df491ba437f441bd89"
    "ca74fab6014b2d9e1a19bf99b6598cce45fe2f7854fe36e2c0eb4b0971c458d3e204213e2aa71cf567b67c6b1f6e3c9ac063"
    "4c785af07585959cd41270475cc92c3eb002987f0281c100ade6ea53e490e75d6ae7c3322b7831618bdf96804dba8329729e"
    "a57a7e368544ee26e4818fa2ae4f6eeeb2a04d439458ebef036d68f0a015ed50434d466c5f6fa74789e4fdf090820cddf048"
    "b0e5c4b7c7864fa51f7358f2b673a5ca65115b02a797aa80b249b598aa5ddda69f5d1c729780be17230e9817beda7fa40404"
    "aa5dac45d60446edc60a0d3605ded90865a3c7c0f5eda9c4969da2e06084a2737ce92555536a02a6cdec58c29383b94c97c5"
    "1056a369b6c2cab72f78774b450c0989",
};
