export type Type1 = 1;
export type Type2 = 1;
export const value1 = 2;
export const value2 = 2;

export class Class1 {}

export type NAME = 'name';
export const NAME = 'name';
