From 014f36cdd29a491cae09f7725006953d134b6573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 01/18] fix: Chinese calendar: eight years with a 30-day
 thirteenth month were one day short

The packed tables gave 29 days to the intercalary month 12 of the years
-33, 119, 187, 301, 339, 711, 1064 and 1827, while the following year
starts 30 days after that month begins.  The missing day belonged to no
year at all, so day_to_dmy() looped forever on it (e.g. JD 746276).
---
 chinese.dat | 12 ++++++------
 chinese.h   | 16 ++++++++--------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/chinese.dat b/chinese.dat
index e9ee402..69681ad 100644
--- a/chinese.dat
+++ b/chinese.dat
@@ -3,17 +3,17 @@
 �V�k��ڊ��J��Ƣ�N�I��ƛ+͈��mE�u�r��d�����IK��v�����D��%��E�����M��͢I�J��ʛVՈ�©�E���ҍ�����ΰJM��j����jC��&�iG�SG�RG���KU�U��
 �lՈ�ũ���Rw����������V�����ڊ����K��M��M�����VE�kE��ʛ�Ո�ƩɎ��.��Ƣ+M��İm��j��r��d�I�IK��v��J�������E��˛����ͩJ���z����V5��°م��m�ҍ���J�KE��ʒ���j��F�iG�RǛ�ƩSŔ����ʢl5��Ű���Rw��K�%K�UU�VE����ڊ����K����͛*ۈ�̩Z	�kE��ʢԵ�膲ю��n����+E�[��m��j��rK�h�QW�J��ƛ-5����ɔrk��ˢ������JK�������VE��I�م�ҍ��F���JM�SE��
 �ZՈj��ʔ�v�R���ưU���ʊ�ʩlE�iK��K�b�E�)�Uu�VE��
-��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
+��Ո�ũ�˔�{����*�*ͰZ��ڲ�ꊫ�E��M��N��N����+E�[��mI�j����hǩQ������ʢ-U��İ�ɛr�������Q[�RM�����J�VE�����E��͛�͈��R���j��
 �Z��lŰꊝԶ�b���N�R�U���ʒ���t�j���K��ǛE��)�UƔ����¢�%���ы��{��M�*�U�ZI�ۂ��J��Ţ�M������J��+�kɔ�r�j��趒���QG�������ME��J��I�r���K��ˢR;�R��ʛU��Vũ�ʔ�u�ԅ��͒�ΰRM�������ZE��J��J��Ɣ����Su�U��
-�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����I˒JͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
+�j�u�j��dw����I��I��U���Ҋ����E��K��K��˔I��J�Vz�Z	���%���ҍ��=����J��KŰk���Ҋj���F�Q�RG���K�M�����I�tÛ�爩�R���z����U��ZŰ����u�ԅ��M���R�������Z��j��J��ƛ���Ʃ�Ɣ�ʁ�¢k�u�j��d���G�IG��V�UF��������E��k����˛I��JͩV������¢���Űҍ�������J��j�k�������F�Ro�R��ƛK5�U��ʔj���â���˰RK��ڊ���UE��J�����������}�R��ʛV��Z��ʔ�u�䆤���ư����̊�©m���J�jK�d�I�I��v�UJ���m%����˔�w����IےJͰV���Ԋڂ�Յ��K��M��͔J�J��j�kJ�j��&���R���΁�ƢK��UŰ�ʛjӊ����G�RW�RK��
 �M�UE��ʌ�J��ś�+������%���ʢW�ZŰڊ��Պ䆫�N��-�����L�Z�mE�ꪌjK�dǛI�I��Ɣ�ԁ�¢uE������������IK��z��J��D��%~�E��m��M��͛J�Jͩ�ʔVՁjâ����R���Ί���K��������j�i'~�K�R7�R��
-�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
+�U5�V��ʔ����Ţ���Ͱ���%ۊ���VE����ڊ������N��n��F���ZE�mE��ʔ䖃dǢI�Iǰ���+��ĩ���jK������I�J��ڌ�J����%��E��͔������J���z|���Z��jé醖�m�RG��N�J�KE��ʌ���l�i+���Rǔ�ց�ʢU�V��ʛ�Պԅ�����{��M�%�U5~VE��ʌ�J����M������*́+�Z	�m��ʛ�֊d��IG�������+E�k)~���j���K��˛IW�J��ʔ-ՁV��E���ҍ��ۊ���JM��j��ʢZE��*~�F�Ҏ�RG���J�SE��
 �ZՁlŢiK���R��%׊�ʩU���������E��+~�K�����M�)�UY�Z	��
 ��Ձ�Ţэ��}|���*�+ũ[ɔڪ�ꊤ���N~QG��v��F�-E�k���E�r˔dׁ�ˢI���v|�ʛU5�Vũ������ҍ���J�JM��ʌ���Z�Պ��F��Ɣ��J�U��ʛj5�lũi��Rw�b��EG�SV~UE����������K��K��˔E��*ˢUʍ��z��5��ũэ��}��N�*M�VJ~[���r�ꊫ���N�Q���+�-��I��I�r˛h׊���Q��������UE��j|�������M���R]�R��ʔV5�Z��ʍ�u|�ƛ�.��ΩRM�����ʢjE��J~j��c��bG�I�S��UE��
 �lŁ�E��ˍ�w|���I;�*ͩU������¢Յ��K~�M�����N�J�VJ�k�����&����΍�n|�ƛK5�-��ʔj��t��i��QW~RK������UE�����J�������R����z�ʛV5�Zũ�ʔԵ�Ԇ��N��M~S��������jE�ꊅjK�dǔI�I��ƍ��z��m�������������IK��Z~V�����ڂ��E�ҋ��M��͔J��J�Vʍֲz��&���Ҏ��n��ƢK����|���kËt��iG�RW�RK��
 �K5�U��
 �j�z�ś�+�������ڃ���V����|ڊ�Յ�Ԇ��N��M��E��J�Z%�kE��ʍԶzdǛI/�Iǩ�Ɣ���¢m��j�|�����I�xIK����VJ����e~�E��ˍ�{|�͛J=�Jͩ������¢ن��M~Ҏ�������KE��ʃ���j���iG�RǍ��z�ʛMu�U��ʔlՃ�Ţ���R[~�M��J�U5wVE����ڊ����-����͍&�z�
-�Ze�mE��ʔԶ�d��I���N~����ċ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
+�Ze�mE��ʔԶ�d��I���N~����ԋ�©m��j���K���I7�I��ʍ-�x���%����˔�ۃ���JM���|���Wŋڂ�ن�ҍ��F���J-�KE��
 �Z�zj��&���R�����ʢM����|�ʛtE�i+w�K�����M�%�U5�VE��
 ���z�ś�M������&̓��Z��ڊ|ꊝ�F��.wIG��������D�ki~uE�j�d�z�ǛI��I��ʔ-��Ģ�ō��|ҋ���I;wJM�����J�ZE��f~�F��͍��z��Jm�K��
 �Z�lŢ醏R�|R���F�K5wU���ꃵ��t��k~�K��ˍ%�z%�U5�V��ʔ���Ţɍ��]~���*͋�̩ZE���ꊤ���.�IG���*�z+�kI�uE�j˔d׃�ǢI����|���-���iu������ҍ���I;�J��
@@ -22,7 +22,7 @@
 �Եz���N�I��Ɣ+M�-�kɍj�|j˛dG�I7wIG�������-E���~�������z�˛KK�J��ʔV�Z��ʍҍ|ҍ��N�J=wJM��ʅ�ʢZE��j~iK�R��y%�K5�UE��
 �j��Ţ�ˍR�|���EK�S�uU����֊��E��k~�M��͍Ey*�Vʇ[I��
 ����Ƣю���|�ƛ+��Z*wkɔj�r��h�Qw~QG���KyUE�����I��˔���ˢR����|�ʛV���juي���ԅ��N�J]�RM��
-�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
+�Vyj�ي�iK�Rǔ��E�Sƍ��z�ʛl��iku���bw����IK�U�~UJ��B��Ew�E��K��M��͔I�*͢Vʍ��z�Յ��muю�������K��[�|���j��Vwh�Qǆ��s��Ku�U��ʍj�z�Û���QWwR�������VE���|ي����y�N��͆��s�ʔVu�j��ʍԶ|dǛɎ��NwS���J��¢m��j�~�����IyI����VJ����e��E��ˍ��|���I���zuV�����¢Յ��m~�N���JyKE�������j��F�i�RǍ��z�ʛK����s�ʔj3�������R�~RM��
 �MUwVE�����J����K��������z�ʛZ���ju�ʔԶ�d��IO���~����L�Zym��j���K��ǔIw�I��ʍ��z���ņ��uҋ������JM���~V���D��Ew�F�����s�ΔJ-�KE��
 �Z�zjÛ�ƆҎuR������ʢK����|���jE�iKw�K�Rǆ%�q�
 �Uu�V��
@@ -54,7 +54,7 @@ t
 ��6rd�I���n��+�y-��Ɇjt�˔�G�IWpI���Z}���5E���uՅ�����s��J���l�ʍV�yZ��ʆ��u�Ɣ���JmpK���
 |�ʛjE��wi��R�%7r%�K~�
 k�
-�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
+�lu{���ˆ��u���%��U�nV����}�ʛ�E�ɭw�N���&]r*�V��k�
 ���{dǛIφ��u�Ɣ+��[�l�ɍjK|d�j�G�I�wIK��
 �+�pUE��
 ~��l���[{�͛J���:t�ʔV����n�ʍ�E|�.i�N�J�wK���J�Z5rjE��
diff --git a/chinese.h b/chinese.h
index 8cf6a90..abda8e1 100644
--- a/chinese.h
+++ b/chinese.h
@@ -125,7 +125,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xca, 0xa2, 0x2d, 0x55, 0x90, 0xd6, 0xc4, 0xb0,
 0xb5, 0xc9, 0x9b, 0x72, 0xab, 0x8a, 0xb4, 0x8b,
 0xab, 0xa8, 0x0b, 0x9a, 0x51, 0x5b, 0x85, 0x52,
-0x4d, 0xa6, 0xa5, 0x8a, 0x94, 0xaa, 0x4a, 0xb4,
+0x4d, 0xa6, 0xa5, 0x9a, 0x94, 0xaa, 0x4a, 0xb4,
 0x56, 0x45, 0x9f, 0xb5, 0x89, 0x8c, 0xd9, 0x45,
 0xad, 0xd4, 0xcd, 0x9b, 0xa8, 0xcd, 0x88, 0xa9,
 0x0e, 0xa8, 0x52, 0x8d, 0x96, 0xa6, 0x6a, 0x83,
@@ -182,7 +182,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xc2, 0xa2, 0x6b, 0xe5, 0x90, 0x75, 0x05, 0xaf,
 0x6a, 0x8b, 0x9d, 0x64, 0x97, 0x8c, 0xa4, 0x47,
 0xad, 0x49, 0x47, 0x98, 0x95, 0x56, 0x85, 0x55,
-0x46, 0xa6, 0xad, 0x82, 0x94, 0xb6, 0x82, 0xb2,
+0x46, 0xa6, 0xad, 0x92, 0x94, 0xb6, 0x82, 0xb2,
 0xb5, 0x45, 0x9f, 0xb2, 0x6b, 0x8e, 0xd2, 0x0b,
 0xaf, 0xa4, 0xcb, 0x9b, 0x49, 0xfb, 0x88, 0x4a,
 0xcd, 0xa9, 0x56, 0x8a, 0x96, 0xb6, 0xb2, 0x81,
@@ -207,7 +207,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x49, 0xef, 0x7f, 0x49, 0x07, 0xa1, 0x95, 0x76,
 0x8e, 0x55, 0x4a, 0xad, 0xb5, 0x02, 0x9a, 0x6d,
 0x25, 0x87, 0xb5, 0x05, 0xa8, 0xb2, 0xcb, 0x94,
-0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xcb,
+0xa4, 0x77, 0x83, 0xa4, 0x8b, 0xa4, 0x49, 0xdb,
 0x92, 0x4a, 0xcd, 0xb0, 0x56, 0x8a, 0x9d, 0xb6,
 0xd4, 0x8a, 0xda, 0x82, 0xab, 0xd5, 0x85, 0x96,
 0xd2, 0x4b, 0x85, 0xd2, 0x4d, 0xa6, 0xa4, 0xcd,
@@ -250,7 +250,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x7f, 0xc9, 0x4e, 0x9f, 0x92, 0x6e, 0x8e, 0x95,
 0x46, 0xad, 0xab, 0x0c, 0x9a, 0x5a, 0x45, 0x87,
 0x6d, 0x45, 0xa6, 0xea, 0xca, 0x94, 0xe4, 0x96,
-0x83, 0x64, 0xc7, 0xa2, 0x49, 0x07, 0x91, 0x49,
+0x83, 0x64, 0xc7, 0xa2, 0x49, 0x17, 0x91, 0x49,
 0xc7, 0xb0, 0x95, 0x86, 0x9d, 0x2b, 0x15, 0x89,
 0xb5, 0xc4, 0xa9, 0xb5, 0x85, 0x96, 0x6a, 0x4b,
 0x85, 0xb2, 0x8b, 0xa4, 0xa4, 0x07, 0x93, 0x49,
@@ -264,7 +264,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4a, 0x0d, 0x80, 0x4b, 0x45, 0x9f, 0xab, 0xca,
 0x8c, 0xad, 0x8a, 0xab, 0x6c, 0x05, 0x9a, 0x69,
 0x2b, 0x87, 0xa9, 0x0b, 0xa8, 0x52, 0xc7, 0x94,
-0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x05,
+0xa5, 0xd6, 0x81, 0xa5, 0xca, 0xa2, 0x55, 0x15,
 0x91, 0x56, 0x05, 0xaf, 0xb5, 0xca, 0x9b, 0xb4,
 0xd5, 0x8a, 0xd4, 0x85, 0xab, 0xa9, 0x8b, 0x96,
 0x92, 0x7b, 0x85, 0x92, 0x4d, 0xa6, 0x25, 0x0b,
@@ -404,7 +404,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x0a, 0x9a, 0x5a, 0x65, 0x89, 0x6d, 0x45, 0xa6,
 0xea, 0xca, 0x94, 0xd4, 0xb6, 0x83, 0x64, 0x87,
 0xa4, 0x49, 0x8f, 0x8f, 0x92, 0x4e, 0x7e, 0x95,
-0x86, 0x9d, 0xab, 0xc4, 0x8b, 0xad, 0xc2, 0xa9,
+0x86, 0x9d, 0xab, 0xd4, 0x8b, 0xad, 0xc2, 0xa9,
 0x6d, 0x85, 0x96, 0x6a, 0x8b, 0x85, 0xb2, 0x4b,
 0xa6, 0xa4, 0x07, 0x93, 0x49, 0x37, 0x80, 0x49,
 0x0b, 0xa1, 0x95, 0xca, 0x8d, 0x2d, 0xf5, 0x78,
@@ -536,7 +536,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0x4e, 0x77, 0x53, 0x86, 0x96, 0xab, 0x4a, 0x82,
 0xad, 0xc2, 0xa2, 0x6d, 0x85, 0x8f, 0x6a, 0x8b,
 0x7e, 0xaa, 0x8b, 0x9d, 0xa4, 0x07, 0x8c, 0x49,
-0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x86, 0x86,
+0x17, 0x79, 0x49, 0x0b, 0x9a, 0x95, 0x96, 0x86,
 0x56, 0x4a, 0xa6, 0xb5, 0x02, 0x93, 0xb5, 0x65,
 0x80, 0xd5, 0x45, 0x9f, 0xd2, 0xcb, 0x8d, 0xa4,
 0xbb, 0x7c, 0xa4, 0x8d, 0x9d, 0x49, 0x8d, 0x88,
@@ -822,7 +822,7 @@ static const unsigned char chinese_calendar_data[30004] = {
 0xab, 0x0a, 0x6b, 0xad, 0x0a, 0x8c, 0x6c, 0x75,
 0x7b, 0xb4, 0x05, 0x9a, 0xa9, 0xcb, 0x86, 0x92,
 0xdb, 0x75, 0x92, 0x8d, 0x96, 0x25, 0x8b, 0x81,
-0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xc2,
+0x55, 0xba, 0x6e, 0x56, 0x8a, 0x8f, 0xb5, 0xd2,
 0x7d, 0xda, 0xca, 0x9b, 0xd4, 0x45, 0x8a, 0xc9,
 0xad, 0x77, 0xc9, 0x4e, 0x98, 0x92, 0x0e, 0x85,
 0x26, 0x5d, 0x72, 0x2a, 0x0d, 0x93, 0x56, 0xca,
-- 
2.43.0


From a39df73debb6ce4d03b6b504ca9bde892ebe3be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 02/18] fix: Hebrew calendar: a molad at exactly noon postpones
 the new year

Dehiyyah (a) applies when the molad falls at noon or later.  With '>',
years such as 75795 started a day early, giving year lengths (such as
352 or 356 days) for which no month pattern exists.
---
 date.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 58c1b7c..2455c79 100644
--- a/date.cpp
+++ b/date.cpp
@@ -305,7 +305,7 @@ static void get_hebrew_year_data( const long year, long *days, char *month_data)
             day++;
       else
          {
-         if( halakim > 18L * 1080L)
+         if( halakim >= 18L * 1080L)
             day++;
          if( mod( day, 7L) == 1 || mod( day, 7L) == 4 || mod( day, 7L) == 6L)
             day++;
-- 
2.43.0


From 06fd869adfe44a6d33717a5c6598b8cc96e8afae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:38 +0000
Subject: [PATCH 03/18] fix: Persian calendar: last tabulated year (2327) had a
 126-day month 12

jalali_jd0() is undefined for 2328, so the length of the last month was
computed from an error value.  Use the algorithmic rule for the start of
the year after the last tabulated one.
---
 date.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/date.cpp b/date.cpp
index 2455c79..626c4f1 100644
--- a/date.cpp
+++ b/date.cpp
@@ -524,7 +524,10 @@ static void get_jalali_year_data( const long year, long *days,
    else
       {
       days[0] = jalali_jd0( year) + 1L;
-      days[1] = jalali_jd0( year + 1L) + 1L;
+      if( year == UPPER_PERSIAN_YEAR)     /* next year is already algorithmic */
+         days[1] = persian_modern_jd0( year + 1L) + 1L;
+      else
+         days[1] = jalali_jd0( year + 1L) + 1L;
       }
             /* The first six months have 31 days.  The next five have 30  */
             /* days.  The last month has 29 days in ordinary years,  30   */
-- 
2.43.0


From 49e4b532421fa4fb81b83a9f327b6475667a0795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 04/18] fix: unpacking natural satellite names longer than 15
 characters

unpack_mpc_desig() called strlcat_err() with a 16-byte limit,  so unpacking
e.g. 'J088S' = 'Jupiter LXXXVIII' terminated the program.  Other branches of
the function already use up to 24 bytes of the buffer.
---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index ddf3972..9cb1415 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -169,7 +169,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
    size_t i;
    int mask = 1, digit_mask = 0, space_mask = 0, digit;
    char provisional_desig[40];
-   const size_t obuff_size = 16;
+   const size_t obuff_size = 24;
 
    if( *packed == '$')         /* Find_Orb extension to allow storing of */
       {                        /* an unpacked name,  up to 11 chars */
-- 
2.43.0


From 37c15d22964fc45d283751c4e326cc9b92e4c2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 05/18] fix: unpacking of provisional natural satellites 100 to
 109

'    SK05JA50' was unpacked as 'S/2005 J 05' instead of 'S/2005 J 105'.
---
 unpack.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index 9cb1415..e323873 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -226,7 +226,7 @@ int unpack_mpc_desig( char *obuff, const char *packed)
             obuff[7] = packed[8];       /* planet identifier */
             obuff[8] = ' ';
             i = 9;
-            if( digit > 10)
+            if( digit >= 10)
                obuff[i++] = '0' + digit / 10;
             if( digit)
                obuff[i++] = '0' + digit % 10;
-- 
2.43.0


From 5f624e1fbf199c790be66eea0a372af3f2aa51ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 06/18] fix: unpack_mpc_desig() with a NULL output buffer and
 an extended designation

A NULL buffer is allowed (it just gets the type of designation),  but an
extended provisional designation such as '_QC0000' was printed to it anyway.
---
 unpack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/unpack.cpp b/unpack.cpp
index e323873..b04b0b3 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -95,7 +95,8 @@ static int unpack_provisional_packed_desig( char *obuff, const size_t obuff_size
 
          if( letter >= 'I')
             letter++;
-         snprintf_err( obuff, 14, "%d %c%c%d", year + 2000, ibuff[2],
+         if( obuff)
+            snprintf_err( obuff, 14, "%d %c%c%d", year + 2000, ibuff[2],
                            letter, 620 + desig_num / 25);
          }
       }
-- 
2.43.0


From 0b50e99007169e2a855d0bb967fed301e0202017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 07/18] fix: unpack_unaligned_mpc_desig() left a long name
 unterminated

---
 unpack.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/unpack.cpp b/unpack.cpp
index b04b0b3..2e01511 100644
--- a/unpack.cpp
+++ b/unpack.cpp
@@ -378,6 +378,7 @@ int unpack_unaligned_mpc_desig( char *obuff, const char *packed)
    if( len > 12)
       {
       memcpy( obuff, packed, 12);
+      obuff[12] = '\0';
       return( OBJ_DESIG_OTHER);
       }
    memset( aligned, ' ', 12);
-- 
2.43.0


From 25246add7ab8c106fb7b4ebdfdd309d4caaff4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 08/18] fix: names that cannot be packed kept bytes of a
 partial packing

For example,  '1999 J 5' was stored as '$1999 J 500 '.
---
 mpc_fmt.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index d0ece99..3090255 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -893,6 +893,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
          obj_name -= 2;
          len += 2;
          }
+      memset( packed_desig, ' ', 12);     /* drop any partial packing */
       if( len <= 7)
          memcpy( packed_desig + 5, obj_name, len);
       else
-- 
2.43.0


From ce43b7bdffe360cecd9ef22a0af84c7462fc58cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:30 +0000
Subject: [PATCH 09/18] fix: packing of a provisional designation over 619
 without second letter

'C/2010 A1234' was packed (as success) into what unpacks to 'C/2010 AJ1233';
the extended scheme needs a second letter.
---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 3090255..3672a64 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -808,7 +808,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
 
             if( packed_desig[11] > 'I')
                n--;
-            if( n >= 62 * 62 * 62 * 62)
+            if( n >= 62 * 62 * 62 * 62 || !isupper( packed_desig[11]))
                mangled_designation = true;
             else
                {
-- 
2.43.0


From 5ccaa09bbb671f025deccc0f3b3f969fbff44fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:53 +0000
Subject: [PATCH 10/18] fix: create_mpc_packed_desig() read past the end of an
 empty name

---
 mpc_fmt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc_fmt.cpp b/mpc_fmt.cpp
index 3672a64..271b987 100644
--- a/mpc_fmt.cpp
+++ b/mpc_fmt.cpp
@@ -715,7 +715,7 @@ int create_mpc_packed_desig( char *packed_desig, const char *obj_name)
       }
                /* Check for comet-style desigs such as 'P/1995 O1' */
                /* and such.  Leading character can be P, C, X, D, or A. */
-   if( obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
+   if( *obj_name && obj_name[1] == '/' && strchr( "PCXDA", *obj_name))
       {
       comet_desig = *obj_name;
       obj_name += 2;
-- 
2.43.0


From f15d4692238ee68d7a44eac9a0cdf05fb0d3be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 11/18] fix: decipher_var_desig() read past the end of an empty
 name

---
 miscell.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/miscell.cpp b/miscell.cpp
index 90f472b..2e47a5f 100644
--- a/miscell.cpp
+++ b/miscell.cpp
@@ -219,7 +219,7 @@ int DLL_FUNC decipher_var_desig( const char DLLPTR *desig)
    int len, first,  second, rval = -2;
 
    first = toupper( desig[0]);
-   second = toupper( desig[1]);
+   second = (desig[0] ? toupper( desig[1]) : 0);
    for( len = 0; desig[len] && desig[len] != ' '; len++)
       ;
    switch( len)
-- 
2.43.0


From 9ad2b6bcedd163fc93fdb7df13c0ee0886c0f27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 12/18] fix: cubic term of the general precession was ten times
 too large

---
 precess.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/precess.cpp b/precess.cpp
index 25138f2..1a8535f 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -90,7 +90,7 @@ static int setup_ecliptic_precession_from_j2000( double DLLPTR *matrix, const do
    const double eta = t * (47.0029 * S2R + (-.03302 * S2R + 6.e-5 * S2R * t) * t);
    const double pie = 174.876384 * PI / 180. -
            t * (869.8089 * S2R - .03536 * S2R * t);
-   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-5 * S2R * t) * t);
+   const double p = t * (5029.0966 * S2R + (1.11113 * S2R - 6.e-6 * S2R * t) * t);
 
    set_identity_matrix( matrix);
 #ifdef UNNECESSARY_MATH
-- 
2.43.0


From 81e1b800794cea9b1a12095f30fb5d28c146f92c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:40 +0000
Subject: [PATCH 13/18] fix: precession between two epochs other than 2000
 multiplied in the wrong order

---
 precess.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/precess.cpp b/precess.cpp
index 1a8535f..1f72b47 100644
--- a/precess.cpp
+++ b/precess.cpp
@@ -188,9 +188,9 @@ int DLL_FUNC setup_ecliptic_precession( double DLLPTR *matrix,
          setup_ecliptic_precession_from_j2000( tmatrix, year_to);
          for( i = 0; i < 3; i++)
             for( j = 0; j < 3; j++)
-               product[j + i * 3] = matrix[i * 3    ] * tmatrix[j]
-                                  + matrix[i * 3 + 1] * tmatrix[j + 3]
-                                  + matrix[i * 3 + 2] * tmatrix[j + 6];
+               product[j + i * 3] = tmatrix[i * 3    ] * matrix[j]
+                                  + tmatrix[i * 3 + 1] * matrix[j + 3]
+                                  + tmatrix[i * 3 + 2] * matrix[j + 6];
          memcpy( matrix, product, 9 * sizeof( double));
          }
       }
-- 
2.43.0


From 22189aeaa1902ed44cbbe64afcc7de57ec6dbb69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:31 +0000
Subject: [PATCH 14/18] fix: tdb_minus_utc() added days (TDB-TDT) to seconds
 (TDT-UTC)

---
 delta_t.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/delta_t.cpp b/delta_t.cpp
index c6ffd21..29a444d 100644
--- a/delta_t.cpp
+++ b/delta_t.cpp
@@ -461,5 +461,5 @@ double DLL_FUNC tdb_minus_utc( const double jd_utc)
 {
    const double t_cen = (jd_utc - J2000) / 36525.;
 
-   return( tdb_minus_tdt( t_cen) / seconds_per_day + td_minus_utc( jd_utc));
+   return( (double)tdb_minus_tdt( t_cen) + td_minus_utc( jd_utc));
 }
-- 
2.43.0


From 71353a99741f7d478a8f9761acdcf764019254df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:04 +0000
Subject: [PATCH 15/18] fix: constellation of a point with negative right
 ascension was that of the next second

---
 conbound.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conbound.c b/conbound.c
index d94f729..73235a0 100644
--- a/conbound.c
+++ b/conbound.c
@@ -1,3 +1,4 @@
+#include <math.h>
 #include <string.h>
 #include <stdint.h>
 #include "watdefs.h"
@@ -377,7 +378,7 @@ int DLL_FUNC constell_from_ra_dec( const double ra_degrees_1875,
                                    const double dec_degrees_1875,
                                    char DLLPTR *constell_name)
 {
-   const int32_t ra = ((int32_t)(ra_degrees_1875 * 240.) + 864000) % 86400;
+   const int32_t ra = ((int32_t)floor( ra_degrees_1875 * 240.) + 864000) % 86400;
    const int16_t spd = (int16_t)( (dec_degrees_1875 + 90.) * 60.);
    int idx = -1, step = 512;
    int rval = -1;
-- 
2.43.0


From 87f15880437c9db11552f2bac97dc14da7a4fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:41 +0000
Subject: [PATCH 16/18] fix: calc_classical_elements: argument of periapsis of
 an orbit in the xy plane with periapsis at negative y

---
 classel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/classel.cpp b/classel.cpp
index 8faad31..8a1419a 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -209,7 +209,7 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
          if( cos_arg_per < 0.)
             elem->arg_per = PI - elem->arg_per;
          }
-      if( e[2] < 0.)
+      if( (n0 ? e[2] : e[1] * h[2]) < 0.)
          elem->arg_per = PI + PI - elem->arg_per;
       }
 
-- 
2.43.0


From e0612182d93dfb42a6c085cd863651554328d304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:05 +0000
Subject: [PATCH 17/18] fix: calc_classical_elements: eccentricity vector is
 projected into the orbit plane (was divided by |h| instead of |h|^2)

---
 classel.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/classel.cpp b/classel.cpp
index 8a1419a..c7fd47f 100644
--- a/classel.cpp
+++ b/classel.cpp
@@ -138,9 +138,9 @@ int DLL_FUNC calc_classical_elements( ELEMENTS *elem, const double *r,
    vector_cross_product( e, v, h);
    for( i = 0; i < 3; i++)
       e[i] = e[i] / elem->gm - r[i] / dist;
-   tval = dot_product( e, h) / h0;     /* "flatten" e vector into the rv */
-   for( i = 0; i < 3; i++)             /* plane to avoid roundoff; see   */
-      e[i] -= h[i] * tval;             /* above comments                 */
+   tval = dot_product( e, h) / (h0 * h0);   /* "flatten" e vector into */
+   for( i = 0; i < 3; i++)             /* the rv plane to avoid roundoff;   */
+      e[i] -= h[i] * tval;             /* see above comments                */
    ecc2 = dot_product( e, e);
    if( fabs( ecc2 - 1.) < 1.e-14)      /* avoid roundoff issues w/nearly */
       ecc2 = 1.;                       /* parabolic orbits               */
-- 
2.43.0


From 43e5234734aaf2a224ac62dc88703e18639c93dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:35 +0000
Subject: [PATCH 18/18] fix: altitude/azimuth at the poles: azimuth and hour
 angle were mirrored or half a turn off

---
 alt_az.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/alt_az.cpp b/alt_az.cpp
index 10078de..2093348 100644
--- a/alt_az.cpp
+++ b/alt_az.cpp
@@ -35,7 +35,7 @@ static void ra_dec_to_alt_az( const double hr_ang, const double dec,
 
    *alt = asine( sin( lat) * sin( dec) + cos_lat * cos( dec) * cos( hr_ang));
    if( cos_lat < .00001)         /* polar case */
-      *az = hr_ang;
+      *az = (lat > 0. ? -hr_ang : hr_ang + PI);
    else
       {
       temp = (sin( dec) - sin( *alt) * sin( lat)) / (cos( *alt) * cos_lat);
@@ -99,7 +99,7 @@ static void alt_az_to_ra_dec( double alt, double az,
    sin_dec = sin( lat) * sin( alt) + cos_lat * cos( alt) * cos( az);
    *dec = asine( sin_dec);
    if( cos_lat < .00001)         /* polar case */
-      *hr_ang = az + PI;
+      *hr_ang = (lat > 0. ? PI - az : az);
    else
       {
       temp = cos_lat * cos( *dec);
-- 
2.43.0

