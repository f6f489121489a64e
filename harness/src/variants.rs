//! Every kind of token: variant, and whether all of its words are experimental.

use sneturfahi::lex::Selmaho;

pub const ALL: &[(Selmaho, &str, bool)] = &[
	(Selmaho::A, "A", false),
	(Selmaho::Bai, "Bai", false),
	(Selmaho::Bahe, "Bahe", false),
	(Selmaho::Be, "Be", false),
	(Selmaho::Bei, "Bei", false),
	(Selmaho::Beho, "Beho", false),
	(Selmaho::Bihe, "Bihe", false),
	(Selmaho::Bihi, "Bihi", false),
	(Selmaho::Bo, "Bo", false),
	(Selmaho::Boi, "Boi", false),
	(Selmaho::Bu, "Bu", false),
	(Selmaho::By, "By", false),
	(Selmaho::Cai, "Cai", false),
	(Selmaho::Caha, "Caha", false),
	(Selmaho::Cei, "Cei", false),
	(Selmaho::Cehe, "Cehe", false),
	(Selmaho::Co, "Co", false),
	(Selmaho::Coi, "Coi", false),
	(Selmaho::Cu, "Cu", false),
	(Selmaho::Cuhe, "Cuhe", false),
	(Selmaho::Daho, "Daho", false),
	(Selmaho::Doi, "Doi", false),
	(Selmaho::Dohu, "Dohu", false),
	(Selmaho::Fa, "Fa", false),
	(Selmaho::Faha, "Faha", false),
	(Selmaho::Faho, "Faho", false),
	(Selmaho::Fehe, "Fehe", false),
	(Selmaho::Fehu, "Fehu", false),
	(Selmaho::Fiho, "Fiho", false),
	(Selmaho::Foi, "Foi", false),
	(Selmaho::Fuha, "Fuha", false),
	(Selmaho::Fuhe, "Fuhe", false),
	(Selmaho::Fuho, "Fuho", false),
	(Selmaho::Ga, "Ga", false),
	(Selmaho::Gaho, "Gaho", false),
	(Selmaho::Gehu, "Gehu", false),
	(Selmaho::Gi, "Gi", false),
	(Selmaho::Giha, "Giha", false),
	(Selmaho::Goi, "Goi", false),
	(Selmaho::Goha, "Goha", false),
	(Selmaho::Guha, "Guha", false),
	(Selmaho::I, "I", false),
	(Selmaho::Ja, "Ja", false),
	(Selmaho::Jai, "Jai", false),
	(Selmaho::Joi, "Joi", false),
	(Selmaho::Johi, "Johi", false),
	(Selmaho::Ke, "Ke", false),
	(Selmaho::Kei, "Kei", false),
	(Selmaho::Kehe, "Kehe", false),
	(Selmaho::Ki, "Ki", false),
	(Selmaho::Koha, "Koha", false),
	(Selmaho::Ku, "Ku", false),
	(Selmaho::Kuhe, "Kuhe", false),
	(Selmaho::Kuho, "Kuho", false),
	(Selmaho::La, "La", false),
	(Selmaho::Lau, "Lau", false),
	(Selmaho::Lahe, "Lahe", false),
	(Selmaho::Le, "Le", false),
	(Selmaho::Lehu, "Lehu", false),
	(Selmaho::Li, "Li", false),
	(Selmaho::Lihu, "Lihu", false),
	(Selmaho::Loho, "Loho", false),
	(Selmaho::Lohu, "Lohu", false),
	(Selmaho::Lu, "Lu", false),
	(Selmaho::Luhu, "Luhu", false),
	(Selmaho::Mai, "Mai", false),
	(Selmaho::Maho, "Maho", false),
	(Selmaho::Me, "Me", false),
	(Selmaho::Mehu, "Mehu", false),
	(Selmaho::Moi, "Moi", false),
	(Selmaho::Mohe, "Mohe", false),
	(Selmaho::Mohi, "Mohi", false),
	(Selmaho::Na, "Na", false),
	(Selmaho::Nai, "Nai", false),
	(Selmaho::Nahe, "Nahe", false),
	(Selmaho::Nahu, "Nahu", false),
	(Selmaho::Nihe, "Nihe", false),
	(Selmaho::Niho, "Niho", false),
	(Selmaho::Noi, "Noi", false),
	(Selmaho::Nu, "Nu", false),
	(Selmaho::Nuha, "Nuha", false),
	(Selmaho::Nuhi, "Nuhi", false),
	(Selmaho::Nuhu, "Nuhu", false),
	(Selmaho::Pa, "Pa", false),
	(Selmaho::Pehe, "Pehe", false),
	(Selmaho::Peho, "Peho", false),
	(Selmaho::Pu, "Pu", false),
	(Selmaho::Raho, "Raho", false),
	(Selmaho::Roi, "Roi", false),
	(Selmaho::Sa, "Sa", false),
	(Selmaho::Se, "Se", false),
	(Selmaho::Sei, "Sei", false),
	(Selmaho::Sehu, "Sehu", false),
	(Selmaho::Si, "Si", false),
	(Selmaho::Soi, "Soi", false),
	(Selmaho::Su, "Su", false),
	(Selmaho::Tahe, "Tahe", false),
	(Selmaho::Tei, "Tei", false),
	(Selmaho::Tehu, "Tehu", false),
	(Selmaho::To, "To", false),
	(Selmaho::Toi, "Toi", false),
	(Selmaho::Tuhe, "Tuhe", false),
	(Selmaho::Tuhu, "Tuhu", false),
	(Selmaho::Ui, "Ui", false),
	(Selmaho::Va, "Va", false),
	(Selmaho::Vau, "Vau", false),
	(Selmaho::Vei, "Vei", false),
	(Selmaho::Veha, "Veha", false),
	(Selmaho::Veho, "Veho", false),
	(Selmaho::Viha, "Viha", false),
	(Selmaho::Vuho, "Vuho", false),
	(Selmaho::Vuhu, "Vuhu", false),
	(Selmaho::Xi, "Xi", false),
	(Selmaho::Y, "Y", false),
	(Selmaho::Zaho, "Zaho", false),
	(Selmaho::Zei, "Zei", false),
	(Selmaho::Zeha, "Zeha", false),
	(Selmaho::Zi, "Zi", false),
	(Selmaho::Zihe, "Zihe", false),
	(Selmaho::Zo, "Zo", false),
	(Selmaho::Zoi, "Zoi", false),
	(Selmaho::Zohu, "Zohu", false),
	(Selmaho::Bahei, "Bahei", true),
	(Selmaho::Beihe, "Beihe", true),
	(Selmaho::Boihoi, "Boihoi", true),
	(Selmaho::Boihohu, "Boihohu", true),
	(Selmaho::Cahei, "Cahei", true),
	(Selmaho::Ceheihoi, "Ceheihoi", true),
	(Selmaho::Cohai, "Cohai", true),
	(Selmaho::Cohehohe, "Cohehohe", true),
	(Selmaho::Cohuho, "Cohuho", true),
	(Selmaho::Cuhau, "Cuhau", true),
	(Selmaho::Dauho, "Dauho", true),
	(Selmaho::Dehai, "Dehai", true),
	(Selmaho::Dehau, "Dehau", true),
	(Selmaho::Dohoi, "Dohoi", true),
	(Selmaho::Fauha, "Fauha", true),
	(Selmaho::Fahoho, "Fahoho", true),
	(Selmaho::Fihoi, "Fihoi", true),
	(Selmaho::Foihe, "Foihe", true),
	(Selmaho::Gahuhau, "Gahuhau", true),
	(Selmaho::Gehuhi, "Gehuhi", true),
	(Selmaho::Gihei, "Gihei", true),
	(Selmaho::Gihoi, "Gihoi", true),
	(Selmaho::Gohoi, "Gohoi", true),
	(Selmaho::Ihau, "Ihau", true),
	(Selmaho::Jaiha, "Jaiha", true),
	(Selmaho::Jaihi, "Jaihi", true),
	(Selmaho::Jauhu, "Jauhu", true),
	(Selmaho::Jahoi, "Jahoi", true),
	(Selmaho::Jihoi, "Jihoi", true),
	(Selmaho::Joihi, "Joihi", true),
	(Selmaho::Johe, "Johe", true),
	(Selmaho::Juhau, "Juhau", true),
	(Selmaho::Juhei, "Juhei", true),
	(Selmaho::Juhuhi, "Juhuhi", true),
	(Selmaho::Kauhai, "Kauhai", true),
	(Selmaho::Kauhu, "Kauhu", true),
	(Selmaho::Keihau, "Keihau", true),
	(Selmaho::Keihi, "Keihi", true),
	(Selmaho::Kehai, "Kehai", true),
	(Selmaho::Kehei, "Kehei", true),
	(Selmaho::Keheiha, "Keheiha", true),
	(Selmaho::Kehehau, "Kehehau", true),
	(Selmaho::Kehehu, "Kehehu", true),
	(Selmaho::Kehuhi, "Kehuhi", true),
	(Selmaho::Kuhau, "Kuhau", true),
	(Selmaho::Kuhei, "Kuhei", true),
	(Selmaho::Kuhoihu, "Kuhoihu", true),
	(Selmaho::Kyhoi, "Kyhoi", true),
	(Selmaho::Lehai, "Lehai", true),
	(Selmaho::Lihau, "Lihau", true),
	(Selmaho::Lihei, "Lihei", true),
	(Selmaho::Lohai, "Lohai", true),
	(Selmaho::Lohoi, "Lohoi", true),
	(Selmaho::Luhei, "Luhei", true),
	(Selmaho::Mauhau, "Mauhau", true),
	(Selmaho::Mauhe, "Mauhe", true),
	(Selmaho::Mauho, "Mauho", true),
	(Selmaho::Meihe, "Meihe", true),
	(Selmaho::Meiho, "Meiho", true),
	(Selmaho::Mehoi, "Mehoi", true),
	(Selmaho::Muhoi, "Muhoi", true),
	(Selmaho::Muhohu, "Muhohu", true),
	(Selmaho::Neihai, "Neihai", true),
	(Selmaho::Noiha, "Noiha", true),
	(Selmaho::Noihau, "Noihau", true),
	(Selmaho::Noihahu, "Noihahu", true),
	(Selmaho::Noihi, "Noihi", true),
	(Selmaho::Nohoi, "Nohoi", true),
	(Selmaho::Rauho, "Rauho", true),
	(Selmaho::Rehaihe, "Rehaihe", true),
	(Selmaho::Sauhu, "Sauhu", true),
	(Selmaho::Sahau, "Sahau", true),
	(Selmaho::Sahoi, "Sahoi", true),
	(Selmaho::Seihau, "Seihau", true),
	(Selmaho::Seiho, "Seiho", true),
	(Selmaho::Sehehi, "Sehehi", true),
	(Selmaho::Sehoihoi, "Sehoihoi", true),
	(Selmaho::Sihihei, "Sihihei", true),
	(Selmaho::Sihihoi, "Sihihoi", true),
	(Selmaho::Sihoi, "Sihoi", true),
	(Selmaho::Soihi, "Soihi", true),
	(Selmaho::Sohehai, "Sohehai", true),
	(Selmaho::Sohoi, "Sohoi", true),
	(Selmaho::Taihu, "Taihu", true),
	(Selmaho::Tauho, "Tauho", true),
	(Selmaho::Tahoi, "Tahoi", true),
	(Selmaho::Tahuhi, "Tahuhi", true),
	(Selmaho::Teihu, "Teihu", true),
	(Selmaho::Tehoihoi, "Tehoihoi", true),
	(Selmaho::Toihe, "Toihe", true),
	(Selmaho::Toiho, "Toiho", true),
	(Selmaho::Vauhehoi, "Vauhehoi", true),
	(Selmaho::Vauhohoi, "Vauhohoi", true),
	(Selmaho::Vuhoi, "Vuhoi", true),
	(Selmaho::Vyhy, "Vyhy", true),
	(Selmaho::Xauhe, "Xauhe", true),
	(Selmaho::Xauheho, "Xauheho", true),
	(Selmaho::Xauho, "Xauho", true),
	(Selmaho::Xauhoi, "Xauhoi", true),
	(Selmaho::Xauhoho, "Xauhoho", true),
	(Selmaho::Xahoihahoiha, "Xahoihahoiha", true),
	(Selmaho::Xehau, "Xehau", true),
	(Selmaho::Xoi, "Xoi", true),
	(Selmaho::Xoha, "Xoha", true),
	(Selmaho::Xohehohe, "Xohehohe", true),
	(Selmaho::Xohi, "Xohi", true),
	(Selmaho::Xuhau, "Xuhau", true),
	(Selmaho::Yhi, "Yhi", true),
	(Selmaho::Zaihai, "Zaihai", true),
	(Selmaho::Zaihu, "Zaihu", true),
	(Selmaho::Zauhehu, "Zauhehu", true),
	(Selmaho::Zeihei, "Zeihei", true),
	(Selmaho::Zeihoi, "Zeihoi", true),
	(Selmaho::Ziheha, "Ziheha", true),
	(Selmaho::Zihehau, "Zihehau", true),
	(Selmaho::Zihoi, "Zihoi", true),
	(Selmaho::Zoihai, "Zoihai", true),
	(Selmaho::Zoihohe, "Zoihohe", true),
	(Selmaho::Zohau, "Zohau", true),
	(Selmaho::Zohehu, "Zohehu", true),
	(Selmaho::Zohiho, "Zohiho", true),
	(Selmaho::Zohoi, "Zohoi", true),
	(Selmaho::Gismu, "Gismu", false),
	(Selmaho::Fuhivla, "Fuhivla", false),
	(Selmaho::Lujvo, "Lujvo", false),
	(Selmaho::Cmevla, "Cmevla", false),
	(Selmaho::UnknownCmavo, "UnknownCmavo", true),
	(Selmaho::AnyText, "AnyText", false),
	(Selmaho::ZoiDelimiter, "ZoiDelimiter", false),
];
