// Private keys (2048 bits) for the signing tool's check; generating them takes too long in every run.
const char* const kSigningKeys[] = {
    "308204a10201000282010100bf2fa60f1bcf805b1f3f619cfbe2e97b6b7963ad17cdaa214ae15dc4b7509820d7126600d5b8f66a90f2c7"
    "1f933c72f9ee54c6c39c669c8c19685573248816f0cff55fec0df09b76dcd64b89a64b753fa0253e66aef8373f27ab952ef3c97a06a108"
    "1bb4690f16ec0a2e66c3d81d103701eab1e80fc3612e8f9eb567de9c537d2ea39a762c6c59f35a216d464c62cc6224b1e1f0377541c73e"
    "674b4423cc3b76ac4edd0d337aaab801d1301c83acf3621f2afbbed80e574812b36b2c9bb0b334404130cc6ce9d17b207bc850a2735e07"
    "a9d332b84695e0bf16186ae9442b7a34a3f9d9ef302a2cfd4ee896942d6a322fb231f0e7402b90dd701e28bb8bb6948502011102820100"
    "059f84e253a4387b2690ec4861c2e8bfdd8391fd8fc248c4be700a498cebc83d33808a878dd0bbf413526f44b181c72577f36f41fd1213"
    "a9c4831192720400acbad282d23ca531bfbb337ab13998cebe1b4c63b7b9da1fbe17c14827072b92a5d78f4c1be4f8ea16004ca8ab683d"
    "1710ad3b9bd21e94ce2704395fb03b40d547654c7e65d39ebe04cd6b41a9b363b67bc7838b6e222a615e18823deba34913ae7792386f62"
    "f3df805ba1bd959d5d41d6f0dc202c367ecdc0cb51a9dc58ef77aae7e6027c9999b6879757a2bc67785dad69da2e1677efa57827c8bc0f"
    "29a04ba2220cd35a2d1334ddd7fbd38569fdf9e9feecc454dd7a2c442087ca7771416a4102818100db630789c70b2212c4439c45bede79"
    "aa4add766db03a6dbfbe9e09504dd2090d302c64fa999581370ef4039ac46698902671e2a203bcb38b72a23d91b29179d9ffdab17f863d"
    "3bb80bfc2d71d8242051b14e0912297ad23b00ce844327ad288c0c403b75db2e6a2013d804af3b8339aa1f73b406a4c9728c653a9853db"
    "9c34ed02818100df17c9664a4bfb3d4d9f1876ba4616475a5be6e1fd99e5883e7d08a82645953d9ab6f94775817a74c761fea2d8e39c45"
    "fb7cd33d977a50219f389e57195154a773da2ac0804257c0fadbfdd90c52ccade98b0aaa2f47148ecca0eca29534462012058c7f586ebd"
    "668b9e7a2cde2bc771b74c299b31283d44b8daac8aa56a42f9028180408689bf1c6cafab2aaa7941b09bc96e524122d4f798b6de0ae32f"
    "ea713dc66d4a6768fe696835103193101e76000ec0fc3f9d027991da744ee46c76257614c7a59aacad095d4dccb83b1c6cc719af271607"
    "e48cdf060198e21e9f5f0bab66474ee5b722a9e07990f6c7106fc635a78c639a803e30777c0b2cd4ffa031884bcd028180419d95968e52"
    "953025e37faa73058e14fc7562063b879ddcc715b74083ba1cd5e235d0d8c83524043aa459f3a933e2ab2bd96b4e59ba9009e3891f8307"
    "7246132212fd83e97ceca22baa1d7c12aef0e7db470322fed8abb1877a9ff3954b9c278cd4749decd546c3ceb623ef142afe6cbd70c0f1"
    "68cf998caed6e7741288aa4902818100cadfd0ad54b2303010bae43b66ba355ff609ccc343bf51e838e7ee8074184384c334414639f959"
    "f9d7f80df11a05a92adec22880d880b4a411ff4735c82c663f9f6e375ccfb910505270779a427871413d94e1bc9dcf4d865ee84d03a549"
    "c39c96fe2317761f4e7228295d458e04f8e7c97c1e81f2701ac46bf8db4164c29c47",
    "308204a10201000282010100960059fff64ec92a1e4ab6e36adc7f3d9da4bff63170ed506e28e30bb4083663eb7579d4d505ec64649113"
    "5c87d761239ee66ad9bffd102742aa985f584a3738c08520a12cc17cee081d5b9aec01b9ceda1b04932830b8503ee6620b45e043443903"
    "6ffaa3d1697efa47dba57665ceded85cd25f9fea6c4f499c3933200a8874f4e7dfd88106755ef71324d7446aafed5d9519b62d3b89ba2c"
    "3952b2babc8636d1c1d2c713425e378472245bc6b2bc94c86d6ac51d63c7c2a08ae4cca2375abbb9893e56bd0278a01390de9422811678"
    "8813714704e27ca7e7a1a691a9d5d47de14d50d632086e0cd00fb2a2b42010f2c8bbd33bd94b0f09d32adab2cac8ab1b02011102820100"
    "11a5b03c3b1853e6d663249339bf967fb8317ffed8a3dfaf1c04cf6ac9e2d938ee864a9182792adea26b6bb08873b1133fdedf64e96910"
    "f58f5f5d3864bd6fe88f1eb88b6ead59fde2d647032ad306cd0a99c44d8c41f790f85756d426569e807f2d94b41345d02d0e62ce8befcf"
    "bdfc197454fc30ee67186303520603c500fe853685192d709e39f2f9ed81f5524371fbdaffe473e3bf526a18cfc3c8788dd420af9d247e"
    "7ff4c3020e5b85fd2294fee7cfbb1afe8e286a0d8de6376203c6d710424a5db24294d930e8573633e055f5c30bbb8e25e72f724fb51c3f"
    "c5b8f1420301aa11603f38c4cdf9a74d9934837177aedea4c22eb07150abd304f745490102818100cfce91f4761ae37f0ecab711a5d7e9"
    "f4ae4b41c0d727d5c61d5ca0eb8d9cd334677f70348a4fa19cc36cb647dd61e88b91819ab6effd449303ec99184a245616a78acfdcb9c2"
    "c265512775e82bec7923e22e1a36731fc93f359d108f364200023e89a56bc2593a3a6e9570a3f35de16ee8337be296ce0de0752e41fd3f"
    "4f56e702818100b8c9e28e08ae50f356fc0af4f95788afd28458df7d03d9b78909cbc7051efd77546daadc55b31c212f8b642101aae192"
    "848619a8b9ae2baa296826dd96f2ea8107caf65d9809c504a2b2835f3da1c2abac019cd84f95a01d0c8125e462efd1ca893585d6bd95d1"
    "498ab033eb2a83d23f6739f2e0cff025663048170b55ac67ad02818100c3953e1341fb307795737f1fab2590e649b03de2ac61ba23df66"
    "3d19eeb1b7b8d9e15a8bcd781fa299cfba9dfd8953562e981924a5a3135d30deae34fa7c8d427f91b49381a83e7d798e8d16bfed9f30d4"
    "e018abb7a5721d5fa2e268ab89696b862732474d8127be86324be599c1c51d16c70b2f9cfe2b2d9b76d4b21d77d95102818015bd65f297"
    "9c09860a3bc50dc2fb3d41dc880a74a54bbf42c4d3f9db2dc7691d18fdd7ddafbab803e779cf8b699ba2113cc47b7d43056e8c7d578c1a"
    "11c239b4d3bd86655d2e5369f505f1567fb8ad7d9bc3f455af028b4eb62d4fc0841c36cc889ce291bbf38208a6e78da3322da043b1ca95"
    "0b63c1e64841ea5d10646ea2c90281806e279bc7767f648494cf22e2399f133fb432e6697ac805fae71499a1e10fbfeb52b1d2bafe7a87"
    "8126f19f5e84692951080d0c204b9d6accea2cdb75f85436d3f02ccfc62e9ce614408114e472a5436c8061f6e2c6f2c926a328614a55d1"
    "3acb43fcda12ace0e4af5445945a5dd958d595c6e886d1c3fa20802e173735cf11a0",
    "308204a10201000282010100e49ef9032238c81f63608697c9f1878af0a322e090ae12f44daea8a3ff1a6a3669b40094ac022f12dfd280"
    "5ef676962617d13333bbdf36143209fd58615e1dad5f1f97f440172165f087f2e734fdf1977fb73592cf88eac1c4f05b1f8996edca0364"
    "6936f5d0448cb6cde50096b4a722ff3d09dbf014a4df3a81ca1c0a95bf5a88317b4b3a908eafde63085a6a196d11a3a1453ec951a9d024"
    "cedeb2beb67ee961381bcdc9118c9da7a451a3b4ee9cae120b8e5d9d36ac2f1bdd57ab922e1942effe00ff963e228ce5cb51d6413ba5bb"
    "726b7acbb408dc7516d47d73018670de41252f64c88408567a6bd4595739dd3845166e73380bd58b6f0457551a3b1e1702011102820100"
    "49f73271f47bc84663ea85e5d064bae92fbc4f0c6b0b243ffb03cd25ffb5b8f37c8d0f3f28974b770c2d83e27cea2184cb7863638f9b09"
    "f77999d1f6f25327b8173eed659c43b7fb555928f07306dd388b33be825233d37aece459b761385bfd97af8b73a9e17f96efd9338030c1"
    "f9d69ddf0ab818f79ec0b10bdf818af43660716095b46906da89bbe41d64c2ccc202bf7c6f2ad116e4d3a869c96f3392f9f15af5b26bed"
    "8526e0093fb2c96a3f2418e297ed19a38377ea0e394cd31c384f6ec4818305b7ec6634a6a7480fd34420fb4fd3fe9aeb99cb225a475f1e"
    "820589d089c3c29f00ec774277fcff64757470b083ea39050fed35f66d6f0a444e3af31902818100ed52300fdcce9a25832dc47601ede9"
    "43d1896a34fb8c359306ac17a4224ca95d067280e83a53e3adc7c9147a23a27d6793a3d8cea95be80e15c80e0fc39d2e2e927e06c50049"
    "00d19df5f0e44af7f027652dd5a1fc2ba5dcbe6d74a597ed813ff3f8529f2c976f2bc8b148e358fce85d12ac45f5e9ec01be8b922a48f0"
    "089b8902818100f69d7c82192122838ad1462153e12c226af454e28d502551cfc486fcb72f2e16b5fcb93adf22198137a1fd46a5fd529c"
    "7c35073fb4a18007c2d88ab23185c703cf9293cbd1d4a00144b90dd851fcc3ffa222c0bf3cbc088b415be2cc34cda2bca35b6bf16a8611"
    "45f909a49c9332242df7c4be109142a15ed703b03909d9649f02818100d166a2e0d1e378f3ec37711cd486a0a5406a30891a306b81ba97"
    "d89fe207684305b0539fbafeb9d59229e4e43d8f5f97a06364f2956f362a8bb084e0bba8ce655414d8cbf1315b134f244d05ab8f798c2c"
    "1962258426834a4dabdf64ef7735cf0471b25036678035b114e5f5c6fd457f4cb61f9cbf57c54dc671e9132e25b669028180658c243591"
    "e0779f9383591cc82f8aa4c2a0d7a8948a69b8467e19771e409a81d2771f183dc2bf353506775953684f316052120b2c428003321cedd0"
    "e73715b646698826bfd005a62b5b41efa949f65a33b3f503735c7bfd1ae9999f610961207f7fff4549faf80dc0e5da5e96f6875e38d88a"
    "7f4adf33634979fd44a9b3de2302818035cc36c5c46b4d7be47f085e1ad5fd9a508fa9b4aba85fe6f5ac466c797b0bf0b474f4ad875f98"
    "0c8d473f1eb86b1644d501b8ddbeec342da54fae36bc343570777e990b6400eca5bd2b3bf229b0dc2c30cc554ac5cc2c8e79cf2f823b86"
    "27a1f241834676d1e59c90758572baf1a75454c97b58e3372cb2baf7036023da5b76",
};
