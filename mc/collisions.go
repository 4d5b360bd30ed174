package main

// Written by the search in DESIGN.md: for each of hashFuncs, pairs of specific strings, the same number for each of hashed.
var collisions = [][][2]string{
	{ // CRC-32
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
		{"j52fm8yq", "ng4156v2"}, {"tv91w36i", "7fu2g6t9"}, {"r7vvdzu3", "f8vq2h6y"},
	},
	{ // CRC-32C
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
		{"y4wqtzmn", "sfvorubp"}, {"g0land7i", "0j1el9x5"}, {"p16s1doy", "nbsfdusx"},
	},
	{ // Adler-32
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
		{"8vyama2r", "bv7nt2kl"}, {"x83te9xr", "3dcfx9bl"}, {"z8q4cd7e", "z4z68xs9"},
	},
	{ // FNV-1 (32 bits)
		{"6i70cs27", "aow84tb6"}, {"fl4uvyw4", "l4zhxm5e"}, {"fmt16aiq", "mwytz5rm"},
		{"jgj1znmh", "9ihzfxs6"}, {"pqx06rlm", "37xr0yd9"}, {"9jprlzfe", "wzbq2awt"},
		{"l5pqjc8d", "82wi6b7z"}, {"5370pajc", "le2ed9ay"}, {"rpwrpwis", "vlhr9e57"},
		{"28fz9wvn", "w1uc2750"}, {"s6ks9e44", "mh24pp77"}, {"4v67bf2r", "akztrces"},
		{"j19crage", "jqoqp9um"}, {"976xe7s6", "ob9avcpe"}, {"7p0a1xvh", "xao1swqm"},
		{"e33atye7", "jwl7ae2c"}, {"evebs3cx", "e7msb7ue"}, {"qstwdm2h", "rxw6h5w9"},
		{"3n4962ix", "f88d7hbl"}, {"5b6g3on1", "fu9qn5z5"}, {"ib1d7sff", "bzelac6i"},
		{"wudw2yys", "6skxmunl"}, {"pcjztks6", "k9ecoy2q"}, {"9ip0m3jv", "b99c5pyi"},
	},
	{ // FNV-1a (32 bits)
		{"wvu273up", "eljbgfkz"}, {"vbo6tn7m", "vdjwfbz4"}, {"wsoebhud", "lx6r0vw0"},
		{"kysr9286", "rhtbxzxr"}, {"5m2p9d7l", "gwtmndji"}, {"55whgrnr", "dbdq82en"},
		{"o0tq6esj", "9979c3g1"}, {"1j4dhgp2", "3h6m7bfs"}, {"i64g89ho", "a981i9w4"},
		{"x8gmxjpz", "yr8j1dwq"}, {"sii9agn4", "2ub3895x"}, {"9gafnuh8", "ydixn7a0"},
		{"0vzi5tfj", "t5dgtzwc"}, {"lugznq51", "2c5rzpfc"}, {"7ycodiy5", "81lrbnmq"},
		{"268fhtkp", "mkth7kcd"}, {"fk5lq7vo", "77szf6q9"}, {"nufh7szp", "zb10rrcg"},
		{"ap4ptcyq", "wtm5m31r"}, {"9gcd02yv", "2m8nfckw"}, {"qnunmueu", "g9m1zsf5"},
		{"lp3ahbh1", "4jqsbzp9"}, {"5ag2fq70", "75ve6hln"}, {"yb7px3jd", "zlr0pkg7"},
	},
	{ // low half of FNV-1 (64 bits)
		{"5f0ka0nr", "ftvfigyp"}, {"l56n6ckg", "u2q0k7tv"}, {"d3vpyx7c", "058c0szo"},
		{"3ymwuvn1", "8i6nx1ay"}, {"6ipxa6wn", "dhh6wb0p"}, {"18uxc3x7", "h8zh4uey"},
		{"de0k4hl8", "clodjtnv"}, {"lqf0pua2", "yn9zxev4"}, {"1lpntmri", "2bzp54n4"},
		{"s3iqzqay", "drw8yvob"}, {"vnonizgs", "hfsmk50b"}, {"plaa4wgs", "vb0dflro"},
		{"o86iy6kj", "rqv0vnk8"}, {"0c10yc7c", "xc2ln4gx"}, {"hi04rq28", "cl4i78er"},
		{"qa5ukz60", "2ipgdm5c"}, {"82ad10hk", "rynxxztb"}, {"5vqlbvs1", "fdc2vu04"},
		{"jz1sy75g", "9atvcucu"}, {"y31x8g5q", "8ma24agn"}, {"9gfj3yih", "dckqfjfn"},
		{"9p2wbs0a", "hf16lgl2"}, {"jxi6mfnh", "rv62tbjp"}, {"vmpxuh1n", "k57reubf"},
	},
	{ // high half of FNV-1 (64 bits)
		{"v74wbu67", "nxx9d99m"}, {"v8bd12mw", "cnwa4tgu"}, {"2gem2knx", "pyorug0a"},
		{"uslypytv", "bxnonx7q"}, {"7uhx9tqa", "7s6khhml"}, {"9y0s97uz", "vmfnm8pm"},
		{"vfq12q6w", "lxed0dji"}, {"md73hk97", "t9nkd54v"}, {"arjyom0o", "k8jn5nyu"},
		{"sb0tlxqr", "5z4jv9ta"}, {"wn44hy0a", "3m4umol1"}, {"few0nu7e", "u7yqcrto"},
		{"b4ca4ymp", "dm15act5"}, {"blc4056d", "heipnl9v"}, {"w6lw3b3l", "cyp1r3f5"},
		{"62ap3csf", "1dzqfk8l"}, {"mlzl4v92", "wd9ca7rv"}, {"8pi0tlw9", "9b3pysk6"},
		{"8i2ktcq2", "avinusec"}, {"uzhebedw", "9muxmgkn"}, {"a8mlvsmw", "ji9grxp6"},
		{"3qdknagk", "19cfx20n"}, {"dq38obaz", "xlfrya4t"}, {"p66hoqy2", "v6e48vhx"},
	},
	{ // low half of FNV-1a (64 bits)
		{"q3wwwrve", "y2s3rz05"}, {"lwf9xtu4", "yspz9yhs"}, {"lc1gvevb", "8u71o6ie"},
		{"3zbz2zvk", "53six81m"}, {"2lvqt6wf", "43z8gzow"}, {"ada6vrlj", "ex9ixhh5"},
		{"lwuvq3qx", "wz8yefkg"}, {"t7evtkpo", "ec7jos83"}, {"9j4xwixh", "psrui89u"},
		{"v3ij6871", "oimvglgo"}, {"kjgg50m2", "llvitkva"}, {"dagmusff", "fvmtnla7"},
		{"zz7uk3i9", "p6vnupw0"}, {"8v6ta765", "6kn16nqb"}, {"vyfirl71", "id5rwy5s"},
		{"swu0twz9", "q6vgn04c"}, {"gl8x69bw", "lcwghj75"}, {"xbvyvon5", "u2ocbg3d"},
		{"pxp17zk4", "g77pddao"}, {"ebj7onrs", "7uyce2po"}, {"ia0zajar", "wkam7al0"},
		{"fzv26hr0", "y167msd7"}, {"m0vqhhtx", "yun02q7z"}, {"f75wvsc7", "xznkfaa5"},
	},
	{ // high half of FNV-1a (64 bits)
		{"lvgvpufm", "6w16cdmi"}, {"6v09yuuj", "41sonwdy"}, {"qony0vjb", "ouuiebtl"},
		{"m4tjdh3b", "un2n8b9k"}, {"9dp4yym3", "7yyyk12n"}, {"cl5jjmv4", "fskrdyg1"},
		{"0g2zw82b", "edpq4cld"}, {"ameo3fbl", "h6j2vxhl"}, {"7inxsh0e", "kxqjfp8p"},
		{"qqtls4wz", "npxb4r9u"}, {"1cvft8eh", "i83gdwfn"}, {"6ipxa6wn", "vy9wgdbp"},
		{"9gedpbo1", "ouhktsnb"}, {"zfx8plfe", "xqu4ehib"}, {"ro5fo3uy", "3v3wyp97"},
		{"oauctagt", "q51oev3s"}, {"4stnn976", "qmhfk6qq"}, {"0igswwhq", "b1fhp59s"},
		{"e8184wub", "txqhhek8"}, {"fi9ppx8q", "rqnzohuj"}, {"kf256kcl", "f9dp57n2"},
		{"89bel9fj", "04iht36y"}, {"uvk8crbo", "homrhu8v"}, {"lvv01exp", "hhh4cm4q"},
	},
	{ // folded FNV-1a (64 bits)
		{"8iqd7f60", "pll3ywiu"}, {"357nc41p", "vge80na4"}, {"yiq1wsj1", "eemzktwn"},
		{"7isu7ufz", "co5q68c7"}, {"c7fs39wb", "q2sod56s"}, {"q9vd66u9", "duxq1cdw"},
		{"snaewujc", "o5sli47y"}, {"easzo2g1", "1z3k3l7w"}, {"cez8h1ju", "6ghrcd7j"},
		{"gye1b542", "wyno6l5o"}, {"4toma126", "g4gsd9j7"}, {"mjjka0mx", "i87jhlzi"},
		{"46np8r4n", "jpqlzle1"}, {"n4l6yd7v", "gtu7zcon"}, {"btq68s5v", "ofzf08ib"},
		{"308gkvln", "vipgqq1r"}, {"lid2r2l4", "vdizei0v"}, {"muaimbhn", "qxhrukt5"},
		{"sbupsygq", "y3z3yg25"}, {"ltgk4d95", "apxfmrt9"}, {"kw30e5dm", "rea1xdts"},
		{"2bnswzy7", "p9loknj6"}, {"c0vi4rwd", "k9qbwlz7"}, {"3z4qvdr3", "x3dds8l1"},
	},
	{ // low half of CRC-64
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
		{"y9lmmcvp", "jl988v22"}, {"y3maf6ax", "vf843cdf"}, {"od96a6so", "s1lc4ctw"},
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
		{"y9lmmcvp", "jl988v22"}, {"y3maf6ax", "vf843cdf"}, {"od96a6so", "s1lc4ctw"},
		{"bdfmyyhb", "7138lp7m"}, {"96l6omzo", "lc9czc8y"}, {"313mlx38", "fdf8yqlp"},
	},
	{ // 31-hash
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
		{"zb6bl51a", "olqv3gqh"}, {"ng8bn52j", "cqsv5grq"}, {"nc7co97k", "cmrw6kwr"},
	},
	{ // 131-hash
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
		{"3x7vh8wc", "z6ybfs4b"}, {"2x3x86vn", "y6ud6q3m"}, {"1r0u68wq", "x0ra4s4p"},
	},
	{ // 33-hash
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
		{"ae8n1y1s", "lck6k05z"}, {"bh2m0ypm", "mfe5j0tt"}, {"dm6l6yu1", "oki4p0y8"},
	},
	{ // 33-hash (xor)
		{"e7xi2jrz", "1dayomjv"}, {"xjgmrfsr", "dcpbedul"}, {"rankco7s", "hqhtk011"},
		{"njwn4cz5", "lqtl6qoh"}, {"sio0nwwi", "86ub2bhc"}, {"geaoauoa", "cmjom3ji"},
		{"5vqlbvs1", "cgpi739h"}, {"p0e9mx4p", "t8emtgm7"}, {"eyafb094", "ubfz1asl"},
		{"ozroqnni", "iqrd4by1"}, {"8sis9j95", "4gz4pouy"}, {"d34sgife", "ejuyq6tm"},
		{"2jyqdtnm", "3ldcjnj5"}, {"bejg2kyp", "0dg1b0z0"}, {"v5yyf44e", "qr1j0fw9"},
		{"n9rmx7rd", "lf3s9ifm"}, {"6qn7bx5x", "1b5hbz1n"}, {"578n7odo", "ym7fnjv0"},
		{"3tenk21y", "ydxef9sq"}, {"8g9sjwe7", "n9i3xw5m"}, {"0huhcolk", "mc6umjhl"},
		{"k9q1s593", "5m4di4x3"}, {"qryxqu7h", "vdtn6bpu"}, {"1iyz6cw7", "800n51l0"},
	},
	{ // sum of the bytes
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
		{"hxsxy8of", "rmkegdin"}, {"zn0i38du", "m1z33cwm"}, {"i8w85ujr", "5muu4y2k"},
	},
	{ // exclusive or of the bytes
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
		{"zn0i38du", "u2f7q6rt"}, {"2nf64387", "6xx5bjyv"}, {"nc2f9xry", "a7g5izok"},
	},
	{ // sum of the bytes times their positions
		{"zn0i38du", "o6ql6k9h"}, {"gmpmsns3", "lqvswq0b"}, {"g35r1m6x", "zp59lbl7"},
		{"fs1gv0bl", "1ehmflk8"}, {"yxmt5sb2", "zra03ftk"}, {"e4tifoh6", "xoo9hao3"},
		{"l7bx5pe4", "4brjyc78"}, {"mie8caag", "cece3bas"}, {"3h3d1qpp", "x3zm85uj"},
		{"u2f7q6rt", "phtwc55t"}, {"phtwc55t", "84uewuj3"}, {"kfshq55z", "wsvb2ky7"},
		{"ej3w6jnm", "wsvb2ky7"}, {"as5sq4j4", "khx889dc"}, {"019krwgj", "s1y7m5up"},
		{"u2f7q6rt", "30o8srbw"}, {"z6ldu9z0", "84uewuj3"}, {"tc1jsqp1", "zra03ftk"},
		{"phtwc55t", "vw2ent8c"}, {"advez9do", "cimw2iqi"}, {"w76pte4o", "gs4w9yg7"},
		{"0ioo0vuc", "a7g5izok"}, {"5muu4y2k", "p0es37rz"}, {"phtwc55t", "nxr1i2mi"},
	},
	{ // rotating exclusive or
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
		{"ssd9m4f2", "4gd9otuo"}, {"cxw9ucwy", "dlw9ucvd"}, {"gpo1hony", "hdo1homd"},
	},
	{ // sdbm hash
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
		{"d7a7c0c9", "0yoz13z0"}, {"m1i5htby", "9swx6wyp"}, {"d0i6bscr", "0rwy0vzi"},
	},
}
