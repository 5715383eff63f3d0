//! Every frame structure of up to 4 bytes (generated), and some long ones.
use super::{firsts, shape, S::*};
use crate::harnesses;

harnesses! {
    frame_s00 [66] {
        shape(&[], 0x04);
        shape(&[X], 0x8C);
        shape(&[More(0)], 0x2E);
        shape(&[End(0)], 0x1E);
        shape(&[R(1)], 0x04);
        shape(&[F], 0x8C);
        shape(&[More(1)], 0x2E);
        shape(&[End(1)], 0x1E);
        shape(&[R(1), X], 0x04);
        shape(&[R(1), More(0)], 0x8C);
    }
    frame_s01 [66] {
        shape(&[R(1), End(0)], 0x04);
        shape(&[R(1), R(1)], 0x8C);
        shape(&[R(1), F], 0x2E);
        shape(&[R(2)], 0x1E);
        shape(&[F, X], 0x04);
        shape(&[F, More(0)], 0x8C);
        shape(&[F, End(0)], 0x2E);
        shape(&[F, R(1)], 0x1E);
        shape(&[F, F], 0x04);
        shape(&[More(2)], 0x8C);
    }
    frame_s02 [66] {
        shape(&[End(2)], 0x04);
        shape(&[R(1), More(1)], 0x8C);
        shape(&[R(1), End(1)], 0x2E);
        shape(&[R(1), R(1), X], 0x1E);
        shape(&[R(1), R(1), More(0)], 0x04);
        shape(&[R(1), R(1), End(0)], 0x8C);
        shape(&[R(1), R(1), R(1)], 0x2E);
        shape(&[R(1), R(1), F], 0x1E);
        shape(&[R(1), R(2)], 0x04);
        shape(&[R(1), F, X], 0x8C);
    }
    frame_s03 [66] {
        shape(&[R(1), F, More(0)], 0x04);
        shape(&[R(1), F, End(0)], 0x8C);
        shape(&[R(1), F, R(1)], 0x2E);
        shape(&[R(1), F, F], 0x1E);
        shape(&[R(2), X], 0x04);
        shape(&[R(2), More(0)], 0x8C);
        shape(&[R(2), End(0)], 0x2E);
        shape(&[R(2), R(1)], 0x1E);
        shape(&[R(2), F], 0x04);
        shape(&[R(3)], 0x8C);
    }
    frame_s04 [66] {
        shape(&[F, More(1)], 0x04);
        shape(&[F, End(1)], 0x8C);
        shape(&[F, R(1), X], 0x2E);
        shape(&[F, R(1), More(0)], 0x1E);
        shape(&[F, R(1), End(0)], 0x04);
        shape(&[F, R(1), R(1)], 0x8C);
        shape(&[F, R(1), F], 0x2E);
        shape(&[F, R(2)], 0x1E);
        shape(&[F, F, X], 0x04);
        shape(&[F, F, More(0)], 0x8C);
    }
    frame_s05 [66] {
        shape(&[F, F, End(0)], 0x04);
        shape(&[F, F, R(1)], 0x8C);
        shape(&[F, F, F], 0x2E);
        shape(&[More(3)], 0x1E);
        shape(&[End(3)], 0x04);
        shape(&[R(1), More(2)], 0x8C);
        shape(&[R(1), End(2)], 0x2E);
        shape(&[R(1), R(1), More(1)], 0x1E);
        shape(&[R(1), R(1), End(1)], 0x04);
        shape(&[R(1), R(1), R(1), X], 0x8C);
    }
    frame_s06 [66] {
        shape(&[R(1), R(1), R(1), More(0)], 0x04);
        shape(&[R(1), R(1), R(1), End(0)], 0x8C);
        shape(&[R(1), R(1), R(1), R(1)], 0x2E);
        shape(&[R(1), R(1), R(1), F], 0x1E);
        shape(&[R(1), R(1), R(2)], 0x04);
        shape(&[R(1), R(1), F, X], 0x8C);
        shape(&[R(1), R(1), F, More(0)], 0x2E);
        shape(&[R(1), R(1), F, End(0)], 0x1E);
        shape(&[R(1), R(1), F, R(1)], 0x04);
        shape(&[R(1), R(1), F, F], 0x8C);
    }
    frame_s07 [66] {
        shape(&[R(1), R(2), X], 0x04);
        shape(&[R(1), R(2), More(0)], 0x8C);
        shape(&[R(1), R(2), End(0)], 0x2E);
        shape(&[R(1), R(2), R(1)], 0x1E);
        shape(&[R(1), R(2), F], 0x04);
        shape(&[R(1), R(3)], 0x8C);
        shape(&[R(1), F, More(1)], 0x2E);
        shape(&[R(1), F, End(1)], 0x1E);
        shape(&[R(1), F, R(1), X], 0x04);
        shape(&[R(1), F, R(1), More(0)], 0x8C);
    }
    frame_s08 [66] {
        shape(&[R(1), F, R(1), End(0)], 0x04);
        shape(&[R(1), F, R(1), R(1)], 0x8C);
        shape(&[R(1), F, R(1), F], 0x2E);
        shape(&[R(1), F, R(2)], 0x1E);
        shape(&[R(1), F, F, X], 0x04);
        shape(&[R(1), F, F, More(0)], 0x8C);
        shape(&[R(1), F, F, End(0)], 0x2E);
        shape(&[R(1), F, F, R(1)], 0x1E);
        shape(&[R(1), F, F, F], 0x04);
        shape(&[R(2), More(1)], 0x8C);
    }
    frame_s09 [66] {
        shape(&[R(2), End(1)], 0x04);
        shape(&[R(2), R(1), X], 0x8C);
        shape(&[R(2), R(1), More(0)], 0x2E);
        shape(&[R(2), R(1), End(0)], 0x1E);
        shape(&[R(2), R(1), R(1)], 0x04);
        shape(&[R(2), R(1), F], 0x8C);
        shape(&[R(2), R(2)], 0x2E);
        shape(&[R(2), F, X], 0x1E);
        shape(&[R(2), F, More(0)], 0x04);
        shape(&[R(2), F, End(0)], 0x8C);
    }
    frame_s10 [66] {
        shape(&[R(2), F, R(1)], 0x04);
        shape(&[R(2), F, F], 0x8C);
        shape(&[R(3), X], 0x2E);
        shape(&[R(3), More(0)], 0x1E);
        shape(&[R(3), End(0)], 0x04);
        shape(&[R(3), R(1)], 0x8C);
        shape(&[R(3), F], 0x2E);
        shape(&[R(4)], 0x1E);
        shape(&[F, More(2)], 0x04);
        shape(&[F, End(2)], 0x8C);
    }
    frame_s11 [66] {
        shape(&[F, R(1), More(1)], 0x04);
        shape(&[F, R(1), End(1)], 0x8C);
        shape(&[F, R(1), R(1), X], 0x2E);
        shape(&[F, R(1), R(1), More(0)], 0x1E);
        shape(&[F, R(1), R(1), End(0)], 0x04);
        shape(&[F, R(1), R(1), R(1)], 0x8C);
        shape(&[F, R(1), R(1), F], 0x2E);
        shape(&[F, R(1), R(2)], 0x1E);
        shape(&[F, R(1), F, X], 0x04);
        shape(&[F, R(1), F, More(0)], 0x8C);
    }
    frame_s12 [66] {
        shape(&[F, R(1), F, End(0)], 0x04);
        shape(&[F, R(1), F, R(1)], 0x8C);
        shape(&[F, R(1), F, F], 0x2E);
        shape(&[F, R(2), X], 0x1E);
        shape(&[F, R(2), More(0)], 0x04);
        shape(&[F, R(2), End(0)], 0x8C);
        shape(&[F, R(2), R(1)], 0x2E);
        shape(&[F, R(2), F], 0x1E);
        shape(&[F, R(3)], 0x04);
        shape(&[F, F, More(1)], 0x8C);
    }
    frame_s13 [66] {
        shape(&[F, F, End(1)], 0x04);
        shape(&[F, F, R(1), X], 0x8C);
        shape(&[F, F, R(1), More(0)], 0x2E);
        shape(&[F, F, R(1), End(0)], 0x1E);
        shape(&[F, F, R(1), R(1)], 0x04);
        shape(&[F, F, R(1), F], 0x8C);
        shape(&[F, F, R(2)], 0x2E);
        shape(&[F, F, F, X], 0x1E);
        shape(&[F, F, F, More(0)], 0x04);
        shape(&[F, F, F, End(0)], 0x8C);
    }
    frame_s14 [66] {
        shape(&[F, F, F, R(1)], 0x04);
        shape(&[F, F, F, F], 0x8C);
    }
    frame_long_d [66] { shape(&[R(12), More(30)], 0x02) }
    frame_first_00 [66] { firsts(0x00, 0x0F) }
    frame_first_10 [66] { firsts(0x10, 0x1F) }
    frame_first_20 [66] { firsts(0x20, 0x2F) }
    frame_first_30 [66] { firsts(0x30, 0x3F) }
    frame_first_xf [66] { for b in [0x4F, 0x5F, 0x6F, 0x7F, 0x80, 0x8F, 0x9F, 0xAF, 0xBF, 0xCF, 0xDF, 0xEF, 0xFF] { shape(&[R(2)], b) } }
    frame_other_40 [66] { firsts(0x40, 0x5F) }
    frame_other_60 [66] { firsts(0x60, 0x7F) }
    frame_other_80 [66] { firsts(0x80, 0x9F) }
    frame_other_a0 [66] { firsts(0xA0, 0xBF) }
    frame_other_c0 [66] { firsts(0xC0, 0xDF) }
    frame_other_e0 [66] { firsts(0xE0, 0xFF) }
    frame_many_records [66] { shape(&[R(1); 30], 0x04) }
    frame_many_fillers [66] { shape(&[R(1), F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, F, R(2), More(2)], 0x04) }
    frame_many_mixed [66] { shape(&[F, R(2), F, R(1), F, F, R(1), R(3), F, R(1), F, R(1), F, F, F, F, End(0)], 0x04) }
}
