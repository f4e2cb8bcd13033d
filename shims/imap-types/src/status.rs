use bounded_static::ToStatic;

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub enum StatusDataItemName {
    Messages,
    Recent,
    UidNext,
    UidValidity,
    Unseen,
}
impl StatusDataItemName {
    pub const ALL: [(&'static str, Self); 5] = [
        ("MESSAGES", Self::Messages),
        ("RECENT", Self::Recent),
        ("UIDNEXT", Self::UidNext),
        ("UIDVALIDITY", Self::UidValidity),
        ("UNSEEN", Self::Unseen),
    ];
    pub fn name(&self) -> &'static str {
        Self::ALL.iter().find(|x| x.1 == *self).unwrap().0
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, ToStatic)]
pub struct StatusDataItem {
    pub name: StatusDataItemName,
    pub value: u32,
}
